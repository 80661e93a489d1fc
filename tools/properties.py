#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/properties.py rewrites both (from the list below and registry.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from registry import CHECKS
L = "lib/nikfemm/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[L + f if not f.startswith(("python/", "lib/")) else f for f in dict.fromkeys(files)],
                               state=[dict(name=a, meaning=b, where=L + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=(L + b if not b.startswith(("python/", "lib/")) else b)) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


I, H, CFG, FS, PG = "inputs", "histories", "configurations", "fault_sequences", "programs"

# ------------------------------------------------------------------ algebra
p("A01", "Sparse matrices hold exactly the entries written to them",
  "A symmetric matrix built entry by entry keeps, for every unordered index pair, the last value set plus everything added to it, and reads as zero everywhere else. Converting it to the compressed form preserves every entry and the size, and multiplying by a vector gives the product with the full symmetric matrix. This holds for any pattern, including missing diagonals, empty rows and orders of insertion.",
  [I, H], "every sequence of writes to matrices of any size and every vector", "the tests build one fixed small matrix; no test has missing diagonals, overwritten entries or a random order of insertion",
  ["algebra/coo.hpp", "algebra/csr.cpp", "algebra/coo.hpp", "algebra/csr.hpp"],
  [("upper-triangle map keyed by row and column", "algebra/coo.hpp"), ("symmetric CSR construction and product", "algebra/csr.cpp")])
p("A02", "Vector kernels compute the element-wise formulas, aliasing included",
  "Every vector operation (sum, difference, product, quotient, scaled sum, dot, norm, copy) returns the element-wise result of its definition for any length and values. The result does not depend on whether the output is also an operand.",
  [I], "all vectors of any length, with aliased operands", "unit tests use one fixed 3–5 element vector per operation and never alias",
  ["algebra/math.cpp", "algebra/math.hpp"], [("element-wise loops", "algebra/math.cpp")])
p("A03", "The iterative solvers return the solution of the linear system",
  "For every symmetric positive definite system each solver (plain, Jacobi, SSOR and incomplete-Cholesky preconditioned conjugate gradients) ends with a finite vector whose residual is within the requested tolerance when iterations suffice. The result solves the same system as a direct solution, from any initial guess (the exact solution included), and the iteration limit is respected.",
  [I], "all SPD matrices, right-hand sides, initial guesses, tolerances and iteration limits", "one 3x3 system with one guess is solved in the unit tests",
  ["algebra/csr.cpp", "algebra/solvers.cpp", "algebra/system.hpp"], [("preconditioned conjugate gradient loops", "algebra/csr.cpp")])
p("A04", "Preconditioners apply the operators they are defined by",
  "The SSOR preconditioner applies exactly the inverse of the symmetric over-relaxation splitting for every relaxation factor, linearly and symmetrically. The incomplete Cholesky factor reproduces the matrix on its own pattern.",
  [I], "all SPD matrices, relaxation factors between 0 and 2 and vectors", "preconditioners are only exercised inside one solve, where a wrong one only costs iterations",
  ["algebra/csr.cpp"], [("SSOR sweeps and incomplete Cholesky", "algebra/csr.cpp")])
p("A05", "Imposed values hold exactly and leave the rest of the system equivalent",
  "After imposing fixed values on any set of unknowns, the solution of the system has exactly these values there, and in the other unknowns it equals the solution of the original equations with the imposed values substituted. The matrix stays symmetric, and the same holds for systems with field-dependent coefficients after they are evaluated.",
  [I, H], "all symmetric systems and all sequences of imposed unknowns", "a single fixed system with one imposed value is tested",
  ["algebra/system.hpp", "algebra/system.hpp", "algebra/coo.hpp"], [("row and column elimination", "algebra/system.hpp")])
p("A06", "Field-dependent matrix entries evaluate to what was accumulated",
  "An entry built from constant and permeability-dependent terms evaluates, for every assignment of the element permeabilities, to the sum of the terms put into it. Copies, sums, scalings and the conversion to the evaluated matrix preserve this.",
  [I, H], "all sequences of operations on symbolic entries and all permeability vectors", "no test constructs symbolic entries",
  ["algebra/coo.hpp", "algebra/csr.cpp", "algebra/non_linear.hpp", "algebra/non_linear.cpp"],
  [("expression terms and their evaluation", "algebra/non_linear.cpp")])

# ------------------------------------------------------------------ geometry
p("G01", "Point-in-polygon agrees with the exact winding of the polygon",
  "For every simple polygon and every point not on its boundary, the containment test answers whether the point is inside, whatever the orientation, starting vertex, position relative to vertex heights, and scale.",
  [I], "all simple polygons and points, including points level with vertices and horizontal edges", "unit tests have one square and a handful of points",
  ["geometry/polygon.cpp", "geometry/polygon.hpp"], [("ray or winding test", "geometry/polygon.cpp")])
p("G02", "Segment, triangle and vector predicates match exact arithmetic",
  "Segment intersection, orientation, point-on-segment, distances, triangle areas and in-triangle tests, angles, rotations and normalisations give the result of exact arithmetic up to rounding, for all configurations including collinear, touching and degenerate ones, and are symmetric in operands that play the same role.",
  [I], "all vectors, segments and triangles on lattices and with real coordinates", "few hand-picked configurations are tested; degeneracies are not",
  ["geometry/segment.cpp", "geometry/vector.cpp", "geometry/vector.hpp", "geometry/common.hpp"], [("orientation and box tests", "geometry/common.hpp")])
p("G03", "The enclosing circle is minimal and encloses; circles through points fit",
  "The minimum enclosing circle of any finite point set contains all the points, and no smaller circle does. The quick enclosing circle contains all the points and the circumcircle passes through its three points.",
  [I], "all finite point sets, with duplicates, collinear and cocircular points", "no test covers enclosing circles beyond a fixed point set",
  ["geometry/circle.cpp", "geometry/circle.hpp"], [("Welzl / incremental construction", "geometry/circle.cpp")])

# ------------------------------------------------------------------ drawing
p("D01", "A drawing contains exactly what was drawn, once",
  "After any sequence of drawing calls the drawing holds each distinct point once, segments between the points that were drawn, each polygon with its vertices in order, and each region with its property under an identifier that maps back to the same property. Rectangles and circles have the outline asked for (closed, with the given number of sides and corners), and translating moves everything rigidly.",
  [I, H], "all histories of drawing calls", "tests only draw one fixed scene",
  ["drawing/drawing.hpp"], [("point deduplication, region map and shape helpers", "drawing/drawing.hpp")],
  state=[("points/segments/polygons/regions", "content of the drawing", "drawing/drawing.hpp")])
p("D02", "Crossing outlines are refused and disjoint ones accepted",
  "Drawing a segment that properly crosses or overlaps a segment that is already in the drawing raises an error, whatever their position, order and orientation. A segment that touches nothing, or only shares end points, is never refused.",
  [I, H], "all pairs and histories of segments, shapes and scales", "no test draws crossing segments",
  ["drawing/drawing.hpp", "geometry/segment.cpp"], [("intersection check when a segment is added", "drawing/drawing.hpp")])
p("D03", "A polygon's property is that of the region marked in it",
  "The property reported for a polygon of the drawing is the one marked inside it and outside every polygon nested in it. Nesting, drawing order and the position of other marks do not change it.",
  [I, H], "all nestings of shapes, marks and orders of drawing", "no test asks for a polygon's property",
  ["drawing/drawing.hpp"], [("property lookup by polygon", "drawing/drawing.hpp")])
p("D04", "Refinement points stay clear of the outline and leave it unchanged",
  "Adding refinement points keeps all the points, segments, polygons and regions drawn before, and adds points only, at most epsilon-scaled distances from the outline they refine, without duplicates and without changing what is inside which face.",
  [I], "all drawings, with and without nested shapes, at all scales", "tests mesh a fixed drawing with refinement and look at nothing",
  ["drawing/drawing.hpp", "mesh/mesh.hpp"], [("epsilon-based points around segments", "drawing/drawing.hpp")])

# ------------------------------------------------------------------ mesh
p("M01", "Meshing yields a conforming triangulation of exactly what was drawn",
  "The mesh of any valid drawing consists of non-degenerate triangles that do not overlap, meet edge to edge and together cover exactly the area drawn. Every drawn point is a vertex and every drawn segment is a chain of triangle edges; every vertex is used.",
  [I, CFG], "all drawings of nested, adjacent and separate shapes and all mesh parameters", "tests mesh two fixed drawings and check only final voltages",
  ["mesh/mesh.hpp", "triangle/triangle.cpp", "drawing/drawing.hpp"], [("hand-over to the triangulator and back", "mesh/mesh.hpp")], state=[("data", "vertices and triangles", "mesh/mesh.hpp")])
p("M02", "Meshes obey the requested triangle size and angles",
  "No triangle is larger than the maximum area asked for, and when the drawing has no angle under 60 degrees none has an angle under the minimum asked for (but for the concentric shells at corners that the triangulator documents). Edges that are not part of the drawing are locally Delaunay.",
  [I, CFG], "all drawings at scales of 1e-5 to 1e4 and all mesh parameters", "no test looks at the shape of triangles",
  ["mesh/mesh.hpp", "triangle/triangle.cpp"], [("switches passed to the triangulator", "mesh/mesh.hpp")])
p("M03", "Every triangle carries the property of the region it lies in",
  "Each triangle of a mesh has the property of the mark placed in the face of the drawing it lies in, whatever the nesting of faces, the order of drawing and marking, and the size of the mesh.",
  [I, H], "all drawings, marks and orders", "tests have one or two regions with the same property",
  ["mesh/mesh.hpp", "drawing/drawing.hpp", "geometry/polygon.cpp"], [("region attributes and default property", "mesh/mesh.hpp")])
p("M04", "Gradient and curl are exact for linear fields and linear in the field",
  "For nodal values of a linear function, the element-wise gradient equals its slope and the curl equals the gradient turned by a right angle, on every element of every mesh. For arbitrary nodal values both are the linear interpolant's, add up and scale with the values, and do not change when a constant is added.",
  [I], "all meshes and nodal fields", "no test compares a computed field with a known one",
  ["mesh/mesh.hpp"], [("element-wise shape function derivatives", "mesh/mesh.hpp")])
p("M05", "Area, mass, barycenter and inertia equal those of the outlined body",
  "For a point in a body of the drawing the area integral, mass, barycenter and moment of inertia computed on the mesh equal those of the innermost polygon around the point, in the coordinates of the drawing, for every mesh resolution. They scale with density, and move with the drawing.",
  [I, CFG], "all drawings, points, mesh parameters and positions", "no test computes an integral",
  ["mesh/mesh.hpp"], [("sum over the triangles in the polygon", "mesh/mesh.hpp")])
p("M06", "The unbounded exterior is closed: the mesh has no border",
  "In a magnetostatic mesh the interior and the transformed exterior are joined into one surface: every edge belongs to exactly two triangles, the surface is a sphere, no vertex is unused, and the exterior vertices and triangles are outside of the boundary circle and have the property of air. Interior and exterior share exactly the vertices of the circle.",
  [I, CFG], "all drawings and mesh parameters", "no test looks at the exterior mesh",
  ["mesh/mesh.hpp", "magnetostatic/simulation.cpp", "magnetostatic/mesh.cpp"], [("Kelvin transform and merge of two meshes", "mesh/mesh.hpp")])

# ------------------------------------------------------------------ current density
p("C01", "The current-density system is the finite element system of the mesh",
  "The system generated for a conductor equals the piecewise-linear finite element stiffness of its mesh with each triangle's conductivity and thickness, and a zero right-hand side before voltages are set. Assembly order and mesh parameters do not matter.",
  [I, CFG], "all drawings, conductivities, depths and mesh parameters", "the only assembly test solves one square",
  ["current_density/mesh.cpp", "current_density/simulation.cpp"], [("element stiffness assembly", "current_density/mesh.cpp")])
p("C02", "Computed voltages obey the physics of conduction",
  "Computed voltages lie between the lowest and highest imposed ones, take imposed values exactly, carry no net current through any free node, and vary linearly along homogeneous strips. Solutions superpose and scale with the imposed voltages.",
  [I], "all conductors and imposed voltages", "one square with two electrodes is tested for end values",
  ["current_density/mesh.cpp", "current_density/simulation.cpp", "algebra/csr.cpp"], [("assembly, Dirichlet elimination and SSOR-CG solve", "current_density/simulation.cpp")])
p("C03", "Layers are independent but for the resistances that connect them",
  "In a multilayer system each layer is its own conductor and an interconnection adds a resistor between the nodes nearest to its two ends: the coupled voltages satisfy Kirchhoff's law with these resistors. Layers without interconnection do not influence each other, and several interconnections add up.",
  [I, H], "all sets of layers, interconnections and resistances", "the multilayer example is run but its numbers are not compared",
  ["current_density/multilayer_simulation.cpp", "current_density/multilayer_simulation.hpp"], [("block assembly and resistor stamps", "current_density/multilayer_simulation.cpp")])
p("C04", "A voltage is imposed on the node nearest to the given point",
  "Setting a voltage at a point fixes the node of that layer nearest to the point, and no other, to that value; other layers and nodes keep their equations.",
  [I, H], "all points, layers and histories of set voltages", "tests set voltages exactly at corners of one square",
  ["current_density/simulation.cpp", "current_density/multilayer_simulation.cpp"], [("nearest node search", "current_density/multilayer_simulation.cpp")])
p("C05", "Power density is consistent with the voltages and balances the input power",
  "The power density of an element is its conductivity times the square of the gradient of the voltages. Integrated over layers, plus what interconnections dissipate, it equals the power delivered by the imposed voltages.",
  [I], "all conductors, voltages and interconnections", "no test evaluates the power density",
  ["current_density/multilayer_simulation.cpp"], [("element-wise field and power", "current_density/multilayer_simulation.cpp")])
p("C06", "Conduction results do not depend on units, position or drawing order",
  "Translating, rotating by quarter turns, mirroring or scaling a conductor (with its contacts) leaves its resistance unchanged; conductivity and thickness scale its current proportionally; order and direction of drawing do not matter beyond discretisation accuracy. A computed conductance is never below the exact one beyond rounding, and no part made a better conductor lowers it.",
  [I, CFG], "all conductors and transformations", "no test compares two runs",
  ["current_density/simulation.cpp", "current_density/mesh.cpp", "mesh/mesh.hpp"], [("whole conduction pipeline", "current_density/simulation.cpp")])

# ------------------------------------------------------------------ magnetostatic
p("B01", "The magnetostatic system is the finite element system of currents and magnets",
  "The generated matrix is the finite element stiffness with the reluctivity of every element, and the source is that of the currents (density times area, a third per vertex) plus the surface currents of the magnets (magnetisation across each edge of their outline).",
  [I, CFG], "all drawings of currents, magnets and permeable bodies", "no test checks the magnetostatic system",
  ["magnetostatic/mesh.cpp", "magnetostatic/simulation.cpp"], [("assembly of stiffness, current and surface current", "magnetostatic/mesh.cpp")])
p("B02", "Linear magnetostatics superpose, scale and follow rigid motion",
  "With field-independent permeability the field of several sources is the sum of the fields of each, scales with them, and vanishes without sources. Moving the whole drawing moves the field with it.",
  [I], "all linear drawings and source strengths", "examples run one scene each and compare nothing",
  ["magnetostatic/simulation.cpp", "magnetostatic/mesh.cpp", "mesh/mesh.hpp"], [("whole magnetostatic pipeline", "magnetostatic/simulation.cpp")])
p("B03", "Fields agree with the analytic fields of wires and magnets in free space",
  "The flux density of round conductors, coaxial returns and uniformly magnetised cylinders in open space approaches the analytic field in direction and size, within discretisation accuracy, wherever the drawing is placed. The flux through any closed curve vanishes and the circulation of the field equals the enclosed current.",
  [I, CFG], "all positions, sizes, currents, magnetisations and permeabilities", "no test compares a field with theory",
  ["magnetostatic/simulation.cpp", "magnetostatic/mesh.cpp", "mesh/mesh.hpp"], [("open boundary by Kelvin transform", "mesh/mesh.hpp")])
p("B04", "A BH curve is interpolated and extrapolated as defined",
  "The permeability at any flux density is that of the curve's segment containing it (by linear interpolation), is finite and positive for monotonic curves, continues past the last point with its last slope, and reproduces the tabulated points.",
  [I], "all monotonic BH curves and flux densities", "no test evaluates a BH curve",
  ["magnetostatic/properties.hpp", "magnetostatic/properties.cpp"], [("segment lookup", "magnetostatic/properties.cpp")])
p("B05", "Nonlinear solutions are consistent with the material curves",
  "After a nonlinear solve the permeability of each element matches its curve at the flux density computed there, and the solution satisfies the system with these permeabilities. A material with a straight curve gives the same field as the linear material of that slope.",
  [I, CFG], "all drawings with nonlinear bodies", "one example is run without comparing results",
  ["magnetostatic/simulation.cpp", "algebra/non_linear.cpp", "algebra/non_linear.cpp"], [("fixed-point iteration on permeability", "magnetostatic/simulation.cpp")])
p("B06", "Forces and torques obey the laws of magnetostatics",
  "The force on a body in its own field vanishes, forces between two bodies are opposite and have the direction and size that theory gives, scale with the product of the sources, and move with the drawing. The torque about a center follows the lever arm.",
  [I], "all arrangements of currents and magnets", "no test computes a force",
  ["magnetostatic/simulation.cpp", "mesh/mesh.hpp"], [("eggshell stress integrals", "magnetostatic/simulation.cpp")])

# ------------------------------------------------------------------ python
p("P01", "The Python module computes what the library computes",
  "For every sequence of calls the Python module returns the same vertices, triangles, voltages and powers as the C++ library given the same calls, in the documented shape, with every layer's indices referring to its own points.",
  [I, H], "all histories of binding calls", "the Python module has no tests",
  ["python/nikfemm.cpp"], [("argument parsing and list building", "python/nikfemm.cpp")])
p("P02", "Bad Python arguments raise and never crash, corrupt or leak",
  "Any call with arguments of wrong type, length, range or order raises a Python exception, leaves the simulation usable and the interpreter alive. Repeating any call does not grow references or memory without bound.",
  [I, H, FS], "all argument values and call orders", "the Python module has no tests",
  ["python/nikfemm.cpp"], [("argument validation and reference counting", "python/nikfemm.cpp")])

# ------------------------------------------------------------------ system
p("R01", "Plots show the data: the colour at a place is that of its value",
  "In a rendered scalar plot the colour at the centre of each sufficiently large element is the colour map's colour for the value there, in the range of the data, with the geometry at the documented scale and offset; plotting never changes the mesh or the data. Plotting a mesh that has not been generated raises an error or leaves an image, without a crash.",
  [I], "all meshes, fields and image sizes", "examples only write image files",
  ["mesh/mesh.hpp", "utils/utils.hpp", "drawing/drawing.hpp"], [("colour map and scaling", "mesh/mesh.hpp")])
p("R02", "Simulations are deterministic and do not influence one another",
  "The same calls give bit-identical meshes and results, in any process, next to any other simulation, and after any earlier simulation or failed call. Generating a conduction system again gives the same as in a new object, and arguments left out have their usual values.",
  [H, FS], "all interleavings of simulations and failures", "tests run single simulations in separate processes",
  ["mesh/mesh.hpp", "triangle/triangle.cpp", "current_density/simulation.cpp"], [("no state outside of the objects", "triangle/triangle.cpp")])
p("R03", "No input makes the library touch memory it should not",
  "Any drawing operation with any arguments succeeds or raises an error, without memory errors or undefined behaviour. So does meshing, solving and post-processing, in finite time and with finite mesh points, for any properties and parameters, when segments meet only at their ends and no detail is below a thousandth of the drawing.",
  [I, H, PG], "all call sequences on the public interface", "tests are not run with sanitizers and use valid inputs",
  ["mesh/mesh.hpp", "drawing/drawing.hpp", "magnetostatic/simulation.cpp", "current_density/multilayer_simulation.cpp"], [("bounds, assertions and cleanup", "mesh/mesh.hpp")])


def main():
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    root = os.path.dirname(HERE) if False else "/repo"
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        for f in list(x["anchors"]["files"]) + [m["where"] for m in x["anchors"]["mechanism"]]:
            if not os.path.exists(root + "/" + f):
                print("missing anchor", x["id"], f)
    with open(HERE + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks = []
    for i in ids:
        if i not in CHECKS:
            continue
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=c.get("technique", "property-based testing with shrinking against a reference oracle; libFuzzer on the same properties in the thorough tier"),
                           level="exploration", level_note=c.get("note", "Randomised search: no violation among the generated cases reported in the evidence. Trusts the oracle in checks/%s and the generators; see DESIGN.md for the domain." % (c["harness"] + (".py" if c.get("kind") == "py" else ".cpp")))))
    na = [dict(property=i, reason="no check is registered for it yet") for i in ids if i not in CHECKS]
    m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks: the checks use the public interface only", source_commits=[]), checks=checks, not_applicable=na,
             notes="check.py builds the library from /repo's working tree (several compiler configurations) under /verif/build; registry.py lists the harness of each property; known_findings.txt lists repaired and known defects.")
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


main()
