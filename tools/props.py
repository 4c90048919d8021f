#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/analysis/assembler/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique="contract-based deductive verification (VCs from LLVM IR of the real code, exact polynomial arithmetic)", level="proof"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), _note=note, _tech=technique, _level=level))
NOFP = "Doubles are treated as exact reals; clang/opt translation and the VC generator are trusted; the code runs in the 2-lane (SSE2) instantiation."
prop("C01", "Element shape functions and quadrature rules are mathematically correct",
     "For every supported element type and integration order, the tabulated shape functions sum to one, equal the element's standard basis at each integration point, and the tabulated derivatives are exactly the derivatives of those functions. The integration points and weights integrate every polynomial up to the order of the rule exactly, and the nodal tables are the basis and its derivatives evaluated at the nodes. Evaluating the basis at an arbitrary reference point returns the same basis and its true derivatives.",
     ["inputs", "configurations"], "all element types x integration orders of the base-function tables, all reference points for pointwise evaluation",
     "The end-to-end tests compare a few solutions with wide tolerances on a few element types; a wrong digit in a weight or a derivative of a rarely used element stays below the tolerance or is never executed.",
     [A + "general/basefunctions.h", A + "general/basefunctions.cpp"],
     [("BaseFunctions<code,gps>::simd", A + "general/basefunctions.h"), ("BaseFunctions<code,gps>::set", A + "general/basefunctions.h")],
     "Tables are input-independent: every entry is computed by symbolic execution and compared with exact basis polynomials (tolerance 1e-9 for the decimal constants); pointwise evaluation is proved as a polynomial identity. " + NOFP)
prop("C02", "Isoparametric geometry: Jacobian, measure, normal and global derivatives",
     "For every element shape, node coordinates and shape derivatives, the geometry computed at an integration point satisfies: the determinant is that of the true Jacobian matrix of the (optionally displaced) element map, the stored inverse is its inverse, and the global shape derivatives obey the chain rule. On faces and edges the measure is the true surface or length element and the normal is a unit vector in the direction given by the node order.",
     ["inputs"], "all node coordinates, displacements and shape-derivative values; all element sizes the assembler instantiates",
     "Tests run a handful of regular meshes where many terms vanish or coincide; a swapped index or sign in one element size or in the displaced or boundary variant is not exercised.",
     [A + "general/op.integration.h"], [("IntegrationKernel", A + "general/op.integration.h")],
     "Elements with many nodes are proved with generic fixed derivative values (linear dependence), smaller ones with fully symbolic ones. " + NOFP)
prop("C03", "Heat transfer element matrices and loads equal their weak form",
     "For every element size, conductivity model and input values, the heat transfer element contributions equal the discretised weak form: conductivity matrix, capacity matrix, heat sources, boundary heat flow/flux/convection, advection with its stabilisation, and the derived temperature gradient and heat flux. Contributions are added to what was accumulated before, each vector lane depends only on its own element, and inputs are not modified.",
     ["inputs", "configurations"], "all nodal values, geometry, weights, material tensors; all element sizes and conductivity models",
     "Regression tests fix a few meshes and material data; wrong terms that vanish for isotropic data, for unit thickness, for zero motion or in the second lane are invisible.",
     [A + "heattransfer/op.conductivity.h", A + "general/op.matrix.mass.h", A + "heattransfer/op.externalheat.h", A + "heattransfer/op.advection.h", A + "heattransfer/op.heatsource.h", A + "heattransfer/op.gradient.h", A + "heattransfer/op.flux.h"],
     [("MatrixConductivityKernel", A + "heattransfer/op.matrix.conductivity.h"), ("AdvectionKernel", A + "heattransfer/op.advection.h"), ("ExternalHeatKernel", A + "heattransfer/op.externalheat.h"), ("TemperatureFluxKernel", A + "heattransfer/op.flux.h")],
     "The symmetric conductivity model is specified under the invariant that its stored tensor is symmetric. " + NOFP)
prop("C04", "Conductivity is rotated to the material coordinate system correctly",
     "For every Cartesian, cylindrical or spherical material coordinate system in 2D and 3D, the rotation computed at a point consists of the cosines and sines of the specified or derived angles, and the conductivity used by the assembler is the material tensor transformed by that rotation. Isotropic conductivity is not changed by any rotation, and the values produced for constant and for point-wise systems agree.",
     ["inputs", "configurations"], "all angles, centers, points and tensors; all conductivity models, system types and dimensions",
     "Tests use few angles and mostly constant or diagonal tensors; an error in one tensor component, sign or quadrant only shows for general data.",
     [A + "general/op.coordinatesystem.h", A + "heattransfer/op.conductivity.h"],
     [("CoordinateSystemKernels", A + "general/op.coordinatesystem.h"), ("ConductivityKernel", A + "heattransfer/op.conductivity.h")],
     "sin, cos, atan and sqrt are uninterpreted functions with their basic algebraic laws. " + NOFP)
prop("C05", "Dense tensor kernels compute the exact matrix products, inverses and Voigt maps",
     "For all matrix entries and each vector lane, the small dense kernels used by all assemblers compute exactly the products, transposed products, triple products, determinants and inverses they are named after, adding the scaled result to the output where specified. The conversions between Voigt and matrix notation are mutually inverse and index the standard components.",
     ["inputs"], "all matrix entries; representative template sizes (square, rectangular, single row/column)",
     "Tests never call the kernels with general data; index slips in rectangular sizes or transposed variants cancel for symmetric inputs.",
     [A + "general/math.h"], [("multAB, multAtB, multABt, multAtBt, multAtBA, multABAt, inv22, inv33", A + "general/math.h")],
     "Templates are verified for representative sizes. " + NOFP)
prop("C06", "Structural mechanics element matrices and loads equal their weak form",
     "For every element size, 2D behaviour and input values, the structural mechanics element contributions equal the discretised weak form: linear and geometrically nonlinear elastic stiffness and internal forces, consistent mass, body acceleration, centrifugal load, pressure and force boundary terms. For the isotropic Kirchhoff law and the compressible 3D Neo-Hookean law, the deformation measures, stress and elasticity tensor are those of the stated law (plasticity and corotational formulations are not included). Contributions are added to what was accumulated before and each vector lane depends only on its own element.",
     ["inputs", "configurations"], "all nodal values, geometry, material parameters; all element sizes and 2D behaviours",
     "Tests sample a few meshes and compare displacements with tolerance; errors in one tensor component, one behaviour or one load type vanish in the sampled cases.",
     [A + "structuralmechanics/op.matrix.elasticity.h", A + "structuralmechanics/op.material.h", A + "structuralmechanics/op.acceleration.h", A + "structuralmechanics/op.angularvelocity.h", A + "structuralmechanics/op.pressure.h", A + "structuralmechanics/op.normalpressure.h", A + "structuralmechanics/op.force.h", A + "general/op.matrix.mass.h", A + "general/op.matrix.apply.h"],
     [("MatrixElasticityKernel", A + "structuralmechanics/op.matrix.elasticity.h"), ("MaterialStructuralMechanicsKernel", A + "structuralmechanics/op.material.h")],
     "Not covered: corotation, plasticity, stress output. Large elements use generic fixed shape derivatives. " + NOFP)
prop("C07", "Vector primitives act on every lane like the scalar operation",
     "For every input, each SIMD operation (arithmetic, maximum, square root, reciprocal and reciprocal square root guarded against non-positive arguments, logarithm, exponential, absolute value, trigonometric functions, load, store, broadcast, positivity flag) gives in each lane exactly the scalar result of the same lane. This holds for the scalar, the two-lane and the four-lane implementation.",
     ["inputs", "configurations"], "all lane values; the scalar, SSE2 and AVX implementations",
     "Only one implementation is compiled into the tested build and lanes are rarely distinguishable in tests; the other widths are never run.",
     ["src/wrappers/simd/simd.scalar.h", "src/wrappers/simd/simd.sse2.h", "src/wrappers/simd/simd.avx.h"], [("SIMD", "src/wrappers/simd")],
     "AVX-512 and SVE headers cannot be compiled for execution here and are out of scope. " + NOFP)
exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None
NA = []
def na(id, title, statement, over, text, why, files, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name="(not claimed)", where=files[0])], hook_needed=None), _na=True))
    NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(V, "tools", "na.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
M = dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang++ --version >/dev/null && mkdir -p evidence replays",
         checks=[dict(property=p["id"], quick_cmd=f"python3-vt engine/run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3-vt engine/run.py {p['id']}", technique=p["_tech"], level=p["_level"], level_note=p["_note"]) for p in P if "_na" not in p],
         not_applicable=NA)
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
