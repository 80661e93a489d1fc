"""What decides each property: the harness (checks/<harness>.cpp), how it is built, and what else runs in the thorough tier."""
CHECKS = {
    "A01": dict(harness="A01", variant="asan", fuzz=["storage", "wide"]),
    "A02": dict(harness="A02", variant="asan", fuzz=["kernels"]),
    "A03": dict(harness="A03", variant="opt", fuzz=["accuracy"]),
    "A04": dict(harness="A04", variant="opt", fuzz=["ssor", "cholesky"]),
    "A05": dict(harness="A05", variant="asan", fuzz=["linear", "nonlinear"]),
    "A06": dict(harness="A06", variant="asan", fuzz=["expressions", "matrix"]),
    "D01": dict(harness="D01", variant="asan", fuzz=["history", "circle"]),
    "D02": dict(harness="D02", variant="opt", fuzz=["crossing"]),
    "D03": dict(harness="D03", variant="opt", fuzz=["conductors", "magnets"]),
    "D04": dict(harness="D04", variant="opt", fuzz=["refine"]),
    "G01": dict(harness="G01", variant="opt", fuzz=["lattice", "real"]),
    "G02": dict(harness="G02", variant="opt", fuzz=["lattice", "real"]),
    "G03": dict(harness="G03", variant="opt", fuzz=["minimal", "enclosing"]),
    "M01": dict(harness="M01", variant="asan", fuzz=["scenes"]),
    "M02": dict(harness="M02", variant="opt", fuzz=["quality"]),
    "M03": dict(harness="M03", variant="opt", fuzz=["regions", "magnetic"]),
    "M04": dict(harness="M04", variant="opt", fuzz=["conductors", "exterior"]),
    "M05": dict(harness="M05", variant="opt", fuzz=["conductors", "magnetics"]),
    "M06": dict(harness="M06", variant="asan", fuzz=["closed"]),
    "C01": dict(harness="C01", variant="opt", fuzz=["single", "layers"]),
    "C02": dict(harness="C02", variant="opt", fuzz=["solution", "strips"]),
    "C03": dict(harness="C03", variant="opt", fuzz=["system", "solution", "circuit"]),
    "C04": dict(harness="C04", variant="opt", fuzz=["single", "layers"]),
    "C05": dict(harness="C05", variant="opt", fuzz=["density", "balance"]),
    "C06": dict(harness="C06", variant="opt", fuzz=["bounds", "moved", "material"]),
    "B01": dict(harness="B01", variant="opt", fuzz=["system"]),
    "B02": dict(harness="B02", variant="opt", fuzz=["solution", "superposition", "motion"]),
    "B03": dict(harness="B03", variant="opt", fuzz=["ampere"]),
    "B04": dict(harness="B04", variant="asan", fuzz=["lookup", "points"]),
    "B05": dict(harness="B05", variant="opt", fuzz=["straight", "knee"]),
    "B06": dict(harness="B06", variant="opt", fuzz=["uniform", "lines"]),
    "P01": dict(harness="P01", variant="opt", fuzz=["problems", "calls"]),
    "P02": dict(harness="P02", variant="asan", fuzz=["arguments", "constructor", "leaks"]),
    "R01": dict(harness="R01", variant="cv", fuzz=[]),
    "R02": dict(harness="R02", variant="opt", fuzz=["again", "interleaved", "regenerate", "defaults"]),
    "R03": dict(harness="R03", variant="asan", fuzz=["conductors", "magnets", "geometry"]),
}
