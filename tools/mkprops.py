#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit).
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

add("C01", "Two-electron integrals equal their mathematical definition",
 "For every four shells (any supported angular momenta, exponents, contraction lengths, coefficients and centres, including coincident and far-apart centres), simint_compute_eri returns the contracted Cartesian Coulomb repulsion integrals (ab|cd), in the documented component order, to floating-point rounding accuracy. This holds for every vector instruction set and every recurrence strategy the library can be generated with.",
 ["inputs", "configurations"],
 "all shell quartets up to the generated maximum angular momentum x all exponents, centres, coefficients, contraction lengths x vector type x recurrence strategy",
 "The tests compare a handful of water/ethane basis sets with relative tolerance 1e-8, up to d functions (f only inside the benchmark), on three of the many vector/strategy combinations; large Boys arguments, high contraction, negative coefficients and AVX-512/AVX builds are never exercised.",
 ["generator/ostei/OSTEI_Writer.cpp", "generator/ostei/OSTEI_VRR_Writer.cpp", "generator/ostei/OSTEI_HRR_Writer.cpp", "generator/ostei/Makowski.hpp", "skel/simint/ostei/ostei_general_vrr.c", "skel/simint/ostei/ostei_general_hrr.c", "skel/ostei_s_s_s_s.c", "skel/simint/boys/boys.h", "skel/simint/shell/shell.c"],
 [("vertical recurrence (inline, external, general)", "generator/ostei/OSTEI_VRR_Writer.cpp; skel/simint/ostei/ostei_general_vrr.c"), ("horizontal recurrence", "generator/ostei/OSTEI_HRR_Writer.cpp; skel/simint/ostei/ostei_general_hrr.c"), ("contraction over primitive vectors", "skel/simint/vectorization/intrinsics_*.h contract/contract_all")],
 observe=["return value and output array of simint_compute_eri"])

add("C02", "First derivatives equal the exact nuclear derivatives",
 "For every four shells, simint_compute_eri_deriv(1,...) returns the twelve first derivatives of the integral with respect to the four centres' x, y, z coordinates, in the documented order, to floating-point rounding accuracy. In particular the derivatives of each component over the four centres sum to zero for every cartesian direction.",
 ["inputs", "configurations"],
 "all shell quartets x geometry/exponents/contraction x vector type x recurrence strategy x slow/fast permutation",
 "Tests cover derivative quartets for water in sto-3g (and 6-31g** in one build); d-function derivatives in most builds, shells shared within a pair, high contraction and far centres are not reached.",
 ["generator/ostei/OSTEIDeriv1_Writer.cpp", "generator/ostei/ostei_deriv1_generator.cpp", "generator/ostei/OSTEI_HRR_Writer.cpp", "skel/simint/recur_lookup.c", "skel/simint/shell/shell.c"],
 [("derivative assembly from raised/lowered classes and the missing-centre sum rule", "generator/ostei/OSTEIDeriv1_Writer.cpp WriteFormDeriv"), ("exponent-weighted contraction", "skel/simint/vectorization/intrinsics_*.h contract_fac/contract_all_fac")],
 observe=["output array of simint_compute_eri_deriv"])

add("C03", "A quartet's result does not depend on how it is batched",
 "The integrals (and derivatives) of a shell quartet depend only on its four shells: they are the same whether the quartet is computed alone or as part of a batch, at any position, for any number of shell pairs on either side, with any clipping of the batch, and however the shell pairs were assembled (created from shell lists, from explicit pairs, or by concatenating existing shell pairs). Results of a batch are stored contiguously, bra pairs outermost and ket pairs innermost, and the call returns the number of quartets computed.",
 ["inputs", "histories"],
 "all batch sizes on both sides relative to the vector length, all mixes of contraction lengths, all clip values, all ways of building the pairs",
 "Tests use one packing style per program and never concatenate or clip pairs; a bug at a vector-batch boundary needs particular counts of shells and primitives.",
 ["skel/simint/shell/shell.c", "generator/ostei/OSTEI_Writer.cpp", "generator/ostei/OSTEIDeriv1_Writer.cpp", "skel/ostei_s_s_s_s.c", "skel/simint/vectorization/vectorization.h"],
 [("padding of primitives to the vector length at batch boundaries", "skel/simint/shell/shell.c simint_fill_multi_shellpair2, simint_cat_multi_shellpair, simint_cat_shellpairs"), ("shell offsets of vector lanes", "generator/ostei/OSTEI_Writer.cpp WriteShellOffsets"), ("clipping", "nshell12_clip, mask_load")],
 state=[dict(name="nprim12 / nshell12 / nshell12_clip", meaning="primitives per pair and pairs (to compute) in a batch", where="skel/simint/shell/shell.h")],
 observe=["output array and return value of simint_compute_eri/_deriv"])

add("C04", "Screening only ever drops provably negligible contributions",
 "With Schwarz screening and tolerance tol, every integral differs from the unscreened one by no more than tol per combination of primitives of the four shells, and a call that reports the whole batch as screened out does so only when every integral is below that bound. The shell screening value is the largest |(ab|ab)| element, and with any screening method a contribution is only dropped if the product of the two primitive pairs' stored screening estimates is below the tolerance, so screening with a vanishing tolerance changes nothing.",
 ["inputs", "configurations"],
 "all shells, tolerances, screening methods, batch layouts and vector types",
 "The screening test only checks counts on water and fails in vector builds of the pinned tree, so it is not part of the stable suite; no test compares screened with unscreened values.",
 ["skel/simint/shell/shell_screen.c", "skel/simint/shell/shell.c", "skel/simint/ostei/ostei.c", "generator/ostei/OSTEI_Writer.cpp", "skel/ostei_s_s_s_s.c"],
 [("primitive estimates", "skel/simint/shell/shell_screen.c simint_primscreen_*"), ("vector skipping", "generated code: vector_max(bra*ket) < tol^2"), ("sorting of primitives by estimate", "skel/simint/shell/shell.c simint_sort_multi_shellpair")],
 observe=["screen[] and screen_max of shell pairs", "screened vs unscreened output"])

add("C05", "Computations stay inside the memory they are given, without UB",
 "Every integral routine (two-electron, derivative, overlap, kinetic, potential) writes exactly the output elements it promises and, in the workspace, nothing beyond the size reported by simint_eri_worksize/workmem for the derivative order and maximum angular momentum in use; it reads only its inputs. No input within the documented domain provokes undefined behaviour (out-of-bounds or misaligned access, signed overflow, use of uninitialised memory).",
 ["inputs", "configurations"],
 "all angular-momentum classes, derivative orders, batch sizes, contraction lengths and vector types, with output and workspace buffers of exactly the documented size",
 "Tests allocate workspaces for the maximum class and generous outputs, and are not run under any sanitizer, so overruns and uninitialised reads pass unnoticed.",
 ["create.py", "generator/ostei/OSTEI_Writer.cpp", "generator/ostei/OSTEIDeriv1_Writer.cpp", "skel/simint/osoei", "skel/simint/boys", "skel/simint/shell/shell.c", "skel/simint/vectorization"],
 [("workspace size table", "create.py worksize_*; simint_ostei_worksize"), ("workspace partition", "generator/ostei/OSTEI_Writer.cpp PartitionWorkspace")],
 observe=["AddressSanitizer/UBSan/MemorySanitizer reports", "canaries around work and output"])

add("C06", "Results are a pure function of the inputs",
 "Integral, screening and Boys computations leave their shells and shell pairs unchanged and return bit-identical results when repeated, whatever the previous contents of workspace and output buffers and whatever calls were made before. There is no hidden state besides initialisation.",
 ["inputs", "histories"],
 "all sequences of calls, all previous buffer contents (NaN, infinities, garbage)",
 "Tests compute each class once with a fresh buffer; a stale read shows only for particular previous contents.",
 ["generator/ostei/OSTEI_Writer.cpp", "skel/ostei_s_s_s_s.c", "skel/simint/ostei/ostei_general_vrr.c", "skel/simint/osoei", "skel/simint/vectorization"],
 [("zeroing of accumulators", "generated memset; contract()"), ("const inputs passed by value", "skel/simint/ostei/ostei.c")],
 observe=["bytes of inputs before/after", "bytes of outputs across repetitions"])

add("C07", "Concurrent computations do not interfere",
 "After initialisation, any number of threads may create shell pairs and compute integrals, derivatives, one-electron integrals and screening values at the same time, sharing read-only shells and shell pairs, as long as each uses its own workspace and output: there are no data races and every thread gets exactly the result of a serial computation.",
 ["schedules", "inputs"],
 "all interleavings of concurrent calls that share input shell pairs and use separate workspace/output",
 "Tests run OpenMP loops but without a race detector, unscreened, and compare to 1e-8; a benign-looking write to shared input is invisible to them.",
 ["skel/simint/ostei/ostei.c", "skel/ostei_s_s_s_s.c", "skel/simint/shell/shell.c", "skel/simint/shell/shell_screen.c", "skel/simint/osoei", "generator/ostei/OSTEI_Writer.cpp"],
 [("all state in arguments", "function pointer table is written only by simint_init")],
 observe=["ThreadSanitizer reports", "per-thread outputs vs serial outputs"])

add("C08", "Shells and shell pairs survive any legal sequence of operations",
 "Any sequence of initialise, allocate, create, copy, re-create, normalise, fill, concatenate and free operations on shells and shell pairs is memory-safe and leak-free, leaves other objects (including copy sources and concatenation inputs) untouched, and yields objects that behave exactly like freshly created ones. A copied shell is a deep, equal and independent copy.",
 ["histories", "inputs"],
 "all sequences of lifecycle operations on several shells and shell pairs with growing and shrinking sizes",
 "Tests create each object once and free it; re-use with a different size, copying into a used object or freeing twice is never exercised.",
 ["skel/simint/shell/shell.c", "skel/simint/shell/shell.h"],
 [("re-allocation only when too small", "skel/simint/shell/shell.c simint_allocate_shell, simint_allocate_multi_shellpair_base")],
 state=[dict(name="ptr, memsize", meaning="owned allocation of a shell / shell pair", where="skel/simint/shell/shell.h")],
 observe=["object fields vs a model", "heap errors and leaks", "integrals from re-used vs fresh objects"])

add("C09", "Overlap integrals equal their mathematical definition",
 "For every pair of shells, simint_compute_overlap returns the contracted Cartesian overlap integrals in the documented order to rounding accuracy, and reports how many shell pairs it computed.",
 ["inputs"], "all angular momenta up to the maximum, exponents, coefficients, contraction lengths and centres",
 "The overlap program prints values but the suite only looks at its exit status.",
 ["skel/simint/osoei/osoei_overlap.c", "skel/simint/osoei/osoei_terms.c", "skel/simint/simint_oneelectron.c"],
 [("one-dimensional overlap terms", "skel/simint/osoei/osoei_terms.c")], observe=["output of simint_compute_overlap"])

add("C10", "Kinetic-energy integrals equal their mathematical definition",
 "For every pair of shells, simint_compute_ke returns the contracted Cartesian kinetic-energy integrals <a|-1/2 nabla^2|b> in the documented order to rounding accuracy; the operator's Hermitian symmetry follows.",
 ["inputs"], "all angular momenta up to the maximum, exponents, coefficients, contraction lengths and centres",
 "The kinetic-energy program prints values but the suite only looks at its exit status.",
 ["skel/simint/osoei/osoei_ke.c", "skel/simint/osoei/osoei_terms.c", "skel/simint/simint_oneelectron.c"],
 [("one-dimensional kinetic terms", "skel/simint/osoei/osoei_terms.c")], observe=["output of simint_compute_ke"])

add("C11", "Nuclear-attraction integrals equal their mathematical definition",
 "For every pair of shells and every set of point charges, simint_compute_potential returns the contracted Cartesian electron-nuclear attraction integrals (sum over the centres of -Z<a|1/r|b>) in the documented order to rounding accuracy; the result is additive over the centres.",
 ["inputs"], "all angular momenta up to the maximum, exponents, contraction lengths, centres, numbers and positions of charges (including zero charges and charges on a shell centre)",
 "The potential program prints values but the suite only looks at its exit status.",
 ["skel/simint/osoei/osoei_potential.c", "skel/simint/simint_oneelectron.c", "skel/simint/boys/boys.h"],
 [("Obara-Saika vertical recurrence over A then B", "skel/simint/osoei/osoei_potential.c")], observe=["output of simint_compute_potential"])

add("C12", "The Boys function is accurate for every order and argument",
 "boys_F_split delivers F_m(x) for all orders 0..n in every vector lane with relative error at rounding level (for orders up to 3 at long range, where the asymptotic form is used, with absolute error at rounding level on the scale of F_0), for every n that the library's integral classes need and every x >= 0, across and at the borders of all internal regions, and a lane's value does not depend on what the other lanes hold.",
 ["inputs", "configurations"], "all n, all x in [0, huge], all combinations of lanes falling into different regions, all vector types",
 "Tests reach x only through water/ethane geometries, with 1e-8 tolerance on the integrals.",
 ["skel/simint/boys/boys.h", "skel/simint/boys/boys_long.h", "skel/simint/boys/boys_longfac.h", "skel/simint/boys/boys_taylor.h", "skel/simint/boys/boys_shortgrid.c"],
 [("Taylor expansion on a grid", "skel/simint/boys/boys_taylor.h"), ("asymptotic form", "skel/simint/boys/boys_long.h"), ("region choice and recursion", "skel/simint/boys/boys.h boys_F_split")],
 observe=["output of boys_F_split"])

add("C13", "Every supported configuration builds and computes the same integrals",
 "Every combination of generator options (maximum angular momentum, thresholds for external and general recurrences, permutation threshold, derivative order), vector type, and build-time angular-momentum/derivative limits yields a library that compiles, links, and returns the same integrals and derivatives to rounding accuracy. Every shell class within the limits is available after initialisation, and requests outside the generated limits or for unknown vector types are refused when configuring.",
 ["configurations", "inputs"], "the product of create.py options x SIMINT_VECTOR x SIMINT_MAXAM x SIMINT_MAXDER",
 "The suite builds exactly three configurations.",
 ["create.py", "generator/ostei/OSTEI_VRR_Writer.cpp", "generator/ostei/OSTEI_HRR_Writer.cpp", "generator/ostei/OSTEI_VRR_Algorithm_Base.cpp", "generator/ostei/OSTEI_HRR_Algorithm_Base.cpp", "skel/simint/CMakeLists.txt", "skel/CMakeLists.txt", "skel/simint/ostei/ostei_init.c", "skel/simint/ostei/ostei_deriv1_init.c"],
 [("lists of sources per angular momentum and derivative", "create.py filelists"), ("function table registration", "skel/simint/ostei/ostei_init.c, ostei_deriv1_init.c")],
 observe=["build result", "integrals of each build"])

add("C14", "The table-writing scripts write correct and complete tables",
 "The scripts under python/ that write the tables compiled into the library and the generator (grid and long-range factors of the Boys function, normalisation constants, component orders, recursion lookup, dispatch tables) write, for every legal combination of their options, tables that compile, have the announced size and contain correctly rounded values in the documented order. In particular a grid of the Boys function serves every argument below its --max-x: the library's evaluation with that grid stays in the table and is as accurate as the truncation of its Taylor expansion allows. The tables committed in the tree have the same properties.",
 ["inputs", "configurations"], "all scripts x all option values (orders, ranges, spacings, precisions, angular momenta), every entry of every table",
 "No test runs the scripts; the committed tables are used at a few points only, and options other than those once used for the committed tables are never exercised.",
 ["python/boys/gen_boys_shortgrid.py", "python/boys/gen_boys_longfac.py", "python/boys/cutoff_finder.py", "python/boys/boys_common/boys.py", "python/gen_shellconstants.py", "python/gen_ordering.py", "python/gen_recurinfo.py", "python/gen_fill.py", "skel/simint/boys/boys_shortgrid.c", "skel/simint/boys/boys_longfac.h", "skel/simint/shell/shell_constants.c", "generator/Ordering_Psi4.cpp", "generator/Ordering_GAMESS.cpp", "skel/simint/ostei/ostei_init.c"],
 [("points of the grid, and the lookup that has to find them", "python/boys/gen_boys_shortgrid.py; skel/simint/boys/boys_taylor.h"), ("recursive factors", "python/gen_shellconstants.py; python/boys/gen_boys_longfac.py")],
 observe=["tables dumped by a compiled program", "boys_F_split on regenerated grids under ASan"])

add("C15", "Code generation is deterministic, complete, and fails loudly",
 "Running the generator twice, or with a different number of parallel processes, into a new or a previously used directory produces the same library sources (up to the order of declarations), containing every requested class. When any generator step fails or its arguments are unusable, the generator and its driver report failure through their exit status.",
 ["configurations", "schedules", "fault_sequences"], "all process counts and interleavings, repeated runs, injected generator failures, malformed command lines",
 "The suite always generates with one process into an empty directory, and greps the log instead of relying on the exit status.",
 ["create.py", "generator/CommandLine.cpp", "generator/ostei/ostei_generator.cpp", "generator/ostei/ostei_deriv1_generator.cpp", "generator/ostei/ostei_hrr_generator.cpp", "generator/ostei/ostei_vrr_generator.cpp"],
 [("pool of generator processes", "create.py runostei"), ("ordered containers in the algorithms", "generator/Types.hpp")],
 observe=["generated tree", "exit status"])

add("C16", "Normalisation makes shells unit-normalised",
 "simint_normalize_shells scales the coefficients of each shell so that the function with all angular momentum along one axis has unit self-overlap with primitive-normalised contraction coefficients, for every angular momentum and contraction. The result does not depend on a common positive factor in the input coefficients, leaves exponents and centres alone, and treats each shell of an array independently.",
 ["inputs"], "all angular momenta, exponents, contraction lengths, coefficient scales and array lengths",
 "Tests normalise a few molecular basis sets up to the angular momenta present in them.",
 ["skel/simint/shell/shell.c", "skel/simint/shell/shell_constants.c"],
 [("norm factors", "skel/simint/shell/shell_constants.c"), ("simint_normalize_shells", "skel/simint/shell/shell.c")],
 observe=["coefficients after normalisation, and overlap integrals"])

add("C17", "The Fortran interface gives the same results as the C interface",
 "A Fortran program using the SimintFortran module sees the same shell and shell-pair contents, workspace sizes, return values and integrals as a C program performing the same calls, for builds with and without derivatives, and the two can exchange objects.",
 ["inputs", "configurations"], "all wrapped operations, arguments and derivative configurations",
 "The Fortran module is compiled but nothing in the suite calls it except an example that is not compared.",
 ["skel/simint/simint.f90"], [("bind(C) derived types and wrappers", "skel/simint/simint.f90")],
 observe=["outputs of Fortran and C drivers"])

add("C18", "Initialisation and finalisation are idempotent",
 "simint_init may be called any number of times and has no effect after the first call; simint_finalize may be called any number of times; computations performed after any such history of calls (ending initialised) give the same results, and nothing is leaked.",
 ["histories"], "all sequences of init, finalize and computations",
 "Tests call init once and finalize once.",
 ["skel/simint/simint_init.c", "skel/simint/ostei/ostei_init.c", "skel/simint/ostei/ostei_deriv1_init.c"],
 [("function table", "skel/simint/ostei/ostei_init.c")], observe=["results after init/finalize sequences"])

add("C19", "Dummy shells turn quartets into two- and three-centre integrals",
 "Replacing a shell by the dummy shell of simint_create_zero_shell (in any of the positions, on one or both sides) yields exactly the corresponding three- or two-centre Coulomb integrals and derivatives, at any placement of the remaining shells, in batches mixing any shells.",
 ["inputs"], "all positions of dummy shells x all classes x geometries x batch layouts",
 "No test uses dummy shells.",
 ["skel/simint/shell/shell.c", "generator/ostei/OSTEI_Writer.cpp"], [("zero exponent, unit coefficient s shell", "skel/simint/shell/shell.c simint_create_zero_shell")],
 observe=["output of simint_compute_eri/_deriv with dummy shells"])

add("C20", "Shell-pair objects hold exactly the documented data",
 "After creation, filling or concatenation, a shell-pair object reports its angular momenta, the number of shell pairs and of primitive pairs (per pair and total, without padding), the centre-to-centre vectors, and for every primitive pair the Gaussian-product data (exponent sum, centre, displacements from both shells, doubled exponents, prefactor), with padding entries that contribute nothing, and screening values that follow the primitives when they are reordered.",
 ["inputs", "histories"], "all shell lists, orders, shared shells, screening methods and batch layouts",
 "No test looks inside shell pairs except for a primitive count in the (failing) screening test.",
 ["skel/simint/shell/shell.c", "skel/simint/shell/shell.h", "skel/simint/shell/shell_screen.c"],
 [("simint_fill_multi_shellpair2 and the cat functions", "skel/simint/shell/shell.c")],
 observe=["fields of struct simint_multi_shellpair"])

add("C21", "The generator programs are memory-safe and free of undefined behaviour",
 "For every quartet and every combination of options, the generator programs run without memory errors or undefined behaviour and write sources that compile cleanly.",
 ["inputs", "configurations"], "all quartets, derivative orders, centres and strategy thresholds; malformed command lines",
 "The suite only runs optimised generator binaries for three configurations.",
 ["generator"], [("ordering maps and recurrences", "generator/Types.cpp, generator/ostei/*")],
 observe=["AddressSanitizer/UBSan reports, exit status"])

add("C22", "The recursion tables describe the canonical Cartesian order at every AM",
 "The tables that drive the general recurrences and the derivative assembly list, for every angular momentum they cover, all Cartesian components exactly once in the canonical order, with correct neighbour indices for raising and lowering each component along each axis and a valid recursion direction.",
 ["inputs"], "all angular momenta and components in the table",
 "Tests reach only the angular momenta of the generated classes and cannot see an entry that is used by higher classes.",
 ["skel/simint/recur_lookup.c", "skel/simint/recur_lookup.h", "generator/Ordering_Psi4.cpp"],
 [("recurinfo_array, am_recur_map", "skel/simint/recur_lookup.c")], observe=["table entries"])

add("C23", "The installed library works from another project",
 "An installation of the library (static, shared or standalone; any vector type and limits; with or without the Fortran interface) can be moved and used on its own: find_package reports the true version, vector type, limits and library kind, grants exactly the components the library provides, and programs built only from the installed headers, module and library compute the same integrals. The shipped examples run and print the same integrals in every configuration.",
 ["configurations", "inputs"], "install options x vector types x limits x requested components",
 "The suite runs executables of the build tree only; nothing is installed.",
 ["skel/CMakeLists.txt", "skel/simint/CMakeLists.txt", "skel/cmake/simintConfig.cmake.in", "skel/examples/CMakeLists.txt", "skel/simint/simint.h", "skel/simint/ostei/ostei_config.h.in"],
 [("package configuration and exported target", "skel/cmake/simintConfig.cmake.in"), ("header and library installation", "skel/simint/CMakeLists.txt")],
 observe=["result of find_package", "output of programs built against the installation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
