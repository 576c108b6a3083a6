"""The properties of diffpy/libdiffpy, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
S = "src/diffpy/srreal/"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop("C01", "Incremental evaluation equals evaluation from scratch",
     "Whatever sequence of evaluations, structure edits, configuration changes, mask changes and explicit structure settings a pair-quantity "
     "calculator went through, the value it reports with the fast (optimized) evaluator equals the value a fresh calculator with the same "
     "settings computes from scratch for the same structure, and the plain evaluator agrees with both.",
     ["histories", "inputs"], "every history of edits, reconfigurations and evaluations, for every structure and calculator",
     "Tests replay a handful of fixed edit sequences; the claim is over every history and every cached state it can leave behind.",
     [S + "PQEvaluator.cpp", S + "PairQuantity.cpp", S + "PDFCalculator.cpp", S + "StructureDifference.cpp"],
     [("fast update of a cached value", S + "PQEvaluator.cpp PQEvaluatorOptimized::updateValue"),
      ("full double sum over pairs", S + "PQEvaluator.cpp PQEvaluatorBasic::updateValue"),
      ("cache invalidation", S + "PairQuantity.cpp ticker / setStructure / mask")])
prop("C02", "Parallel partial evaluations add up to the serial value",
     "For every number of processors, the partial values computed by the individual processors, merged in any order into one calculator, "
     "give the same value as a single-processor evaluation: every pair is counted by exactly one processor.",
     ["inputs", "schedules"], "every structure, every processor count and every merge order",
     "Tests use one structure and two or three processors; the claim is a partition statement for every count and loop length.",
     [S + "PQEvaluator.cpp", S + "PairQuantity.cpp", S + "BondCalculator.cpp", S + "OverlapCalculator.cpp"],
     [("round-robin skipping of sites", S + "PQEvaluator.cpp PQEvaluatorBasic::updateValue"), ("merge of partial values", S + "PairQuantity.cpp mergeParallelData")])
prop("C03", "Pair and type masks select exactly the pairs that were asked for",
     "After any sequence of index mask calls (single sites or 'all') a pair is included exactly when the last call that names it said so, and "
     "likewise after any sequence of type mask calls ('all' or 'ALL' means every type), irrespective of the order of the two indices or types, of "
     "inversions in between and of the number of sites in the structures set meanwhile; a masked-out pair contributes nothing and unmasking "
     "restores it. Index and type masks are separate modes: a mask for all pairs starts anew in either.",
     ["histories", "inputs"], "every sequence of mask calls, every index or type pair and every number of sites",
     "Tests set a few masks; the claim covers every interleaving of overlapping index, wildcard and type masks.",
     [S + "PairQuantity.cpp", S + "PairQuantity.hpp"],
     [("pair mask bookkeeping", S + "PairQuantity.cpp maskAllPairs/invertMask/setPairMask/getPairMask/setTypeMask/getTypeMask"),
      ("mask used in the sum", S + "PQEvaluator.cpp, PairQuantity.cpp updateMaskData")])
prop("C04", "Bond generators yield every bond in range exactly once",
     "For every structure, anchor site, site selection and distance range, a bond generator visits exactly the bonds whose length lies in the "
     "range, each once, with the neighbor's position, multiplicity and direction vector consistent with the reported distance.",
     ["inputs", "histories"], "every structure kind, anchor, site subset, range and restart of the iteration",
     "Tests compare counts on a few crystals; the claim is exactness over every cell, range and selection.",
     [S + "BaseBondGenerator.cpp", S + "PeriodicStructureAdapter.cpp", S + "CrystalStructureAdapter.cpp"],
     [("iteration protocol", S + "BaseBondGenerator.cpp"), ("lattice image enumeration", S + "PeriodicStructureAdapter.cpp PeriodicStructureBondGenerator")])
prop("C05", "Lattice-point enumeration covers the spherical shell exactly",
     "For every lattice and every pair of bounds, the enumeration of lattice points yields exactly the integer points whose distance from "
     "the origin lies within the bounds, each exactly once, and reports their distance; rewinding repeats the same sequence.",
     ["inputs"], "every lattice and every Rmin, Rmax",
     "Tests count points for a few lattices; round-off free completeness for every cell shape needs a proof.",
     [S + "PointsInSphere.cpp", S + "PointsInSphere.hpp"], [("nested ranges per axis", S + "PointsInSphere.cpp next_m/next_n/next_o/next")])
prop("C06", "Lattice quantities are mutually consistent",
     "After a lattice is set from any valid cell parameters or from any valid base vectors, all its published quantities (edges, angles, "
     "base, reciprocal base, metric tensor, volume, conversions, norms, angles, cell reduction, longest diagonal) describe that one lattice.",
     ["inputs", "histories"], "every valid cell, every right-handed base, every vector and every sequence of the two setters",
     "Tests use a few cells; the claim is an identity over all of them.",
     [S + "Lattice.cpp", S + "Lattice.hpp", S + "R3linalg.cpp", S + "R3linalg.hpp"],
     [("cell to base", S + "Lattice.cpp setLatPar"), ("base to cell", S + "Lattice.cpp setLatBase"), ("conversions", S + "Lattice.cpp cartesian/fractional/ucv*")])
prop("C07", "Every effective configuration change is noticed",
     "Whenever a setter changes a parameter that influences the accumulated value of a calculator with incremental evaluation (PDF, Debye "
     "PDF, bonds), directly or through any of its component models and tables, the calculator's change counter becomes newer than its last evaluation, so the next evaluation does not reuse a stale value.",
     ["histories", "configurations"], "every setter of every calculator, model and table, through every composition",
     "Tests check a few setters; a forgotten change notification shows only after the right sequence of set and evaluate.",
     [S + "PDFCalculator.cpp", S + "PairQuantity.cpp", S + "ScatteringFactorTable.cpp", "src/diffpy/EventTicker.cpp"],
     [("change tickers", "src/diffpy/EventTicker.cpp"), ("click in setters", S + "*.cpp"), ("aggregation", S + "PDFCalculator.cpp ticker, BaseDebyeSum.cpp ticker")])
prop("C08", "PDF grid covers exactly the requested range",
     "For every requested r-range and step, the output grid consists exactly of the multiples of the step inside the range, all results have "
     "the length of that grid, and every contribution lands on the grid point it belongs to without touching memory outside the grid.",
     ["inputs", "configurations"], "every rmin, rmax, step and extension",
     "Tests use a few grids; off-by-one errors show for particular ratios of range and step.",
     [S + "PDFCalculator.cpp", S + "PDFUtils.cpp", S + "BaseDebyeSum.cpp"],
     [("grid indices", S + "PDFCalculator.cpp rcalclosteps etc."), ("peak summation", S + "PDFCalculator.cpp addPairContribution")])
prop("C09", "Rejected settings leave the object unchanged",
     "Every setter documented to reject a value (negative, zero, out of range, unknown name) raises an error for every such value, accepts "
     "every valid value, stores exactly what it was given, and leaves the object unchanged when it rejects.",
     ["inputs"], "every value handed to every validating setter",
     "Tests try single bad values; the claim is over all values and over the state left after a rejection.",
     ["src/diffpy/validators.hpp", S + "PDFCalculator.cpp", S + "BaseDebyeSum.cpp", S + "PairQuantity.cpp"],
     [("validators", "src/diffpy/validators.hpp"), ("setters", S + "*.cpp")])
prop("C10", "Bond calculator reports exactly the bonds asked for, sorted",
     "The bond calculator's distances, directions, site indices and types list exactly the pairs within its range that pass the direction "
     "filter and masks, consistently with each other and sorted by distance; filters select by angle inclusively and degenerate filters are rejected.",
     ["inputs", "histories"], "every structure, range, filter set and merge history",
     "Tests look at a few structures; sorting, filtering and merging must agree for all of them.",
     [S + "BondCalculator.cpp"], [("collection and sort", S + "BondCalculator.cpp finishValue"), ("direction filter", S + "BondCalculator.cpp checkConeFilters")])
prop("C11", "Overlap calculator quantities follow from pair distances and radii",
     "Overlaps, squared overlaps, coordinations and neighborhoods reported by the overlap calculator are those obtained from the pair "
     "distances, multiplicities and the radii table for every structure, and predicted changes from flipping types equal actual changes.",
     ["inputs", "histories"], "every structure, radii table and flip",
     "Tests use two crystals; the identities must hold for all radii and structures.",
     [S + "OverlapCalculator.cpp"], [("overlap of a pair", S + "OverlapCalculator.cpp suboverlap"), ("flip differences", S + "OverlapCalculator.cpp flipDiffTotal/flipDiffMean")])
prop("C12", "Bond valence sums follow the bond valence law",
     "Every pair with tabulated parameters contributes exp((R0 - d)/B) with its occupancies to both sites, bonds without parameters contribute "
     "nothing, and the reported differences and mean square deviation follow from the sums and the expected valences.",
     ["inputs", "configurations"], "every structure, parameter table and bond length",
     "Tests check a few oxides against reference numbers.",
     [S + "BVSCalculator.cpp", S + "BVParam.cpp", S + "BVParametersTable.cpp"],
     [("valence of a bond", S + "BVParam.cpp bondvalence/bondvalenceToDistance"), ("sum over bonds", S + "BVSCalculator.cpp addPairContribution"), ("table lookup", S + "BVParametersTable.cpp lookup")])
prop("C13", "Scattering-factor and radii tables look up, override and reset consistently",
     "A table returns the custom value whenever one was set for the atom type and the standard value otherwise; removing a customization or "
     "all of them restores the standard values, customizations by another type's factor and scale multiply that factor, and unknown types are rejected.",
     ["histories", "inputs"], "every sequence of set, reset and lookup calls over every symbol",
     "Tests set a couple of symbols; the claim is over all call sequences.",
     [S + "ScatteringFactorTable.cpp", S + "AtomRadiiTable.cpp", S + "SFTXray.cpp", S + "SFTElectron.cpp", S + "SFTNeutron.cpp", S + "AtomUtils.cpp"],
     [("custom over standard", S + "ScatteringFactorTable.cpp lookup/setCustomAs/resetCustom"), ("radii", S + "AtomRadiiTable.cpp")])
prop("C14", "Peak shapes, widths, envelopes and baselines follow their formulas",
     "Every peak profile, peak width model, envelope and baseline evaluates its documented formula at every argument: profiles are "
     "nonnegative, symmetric, have the requested width and vanish beyond their reported bounds; envelopes stay in range and cut where stated.",
     ["inputs", "configurations"], "every argument and every parameter value",
     "Tests sample a few points per function.",
     [S + "GaussianProfile.cpp", S + "CroppedGaussianProfile.cpp", S + "JeongPeakWidth.cpp", S + "DebyeWallerPeakWidth.cpp", S + "SphericalShapeEnvelope.cpp",
      S + "StepCutEnvelope.cpp", S + "QResolutionEnvelope.cpp", S + "ScaleEnvelope.cpp", S + "LinearBaseline.cpp", S + "PDFUtils.cpp"],
     [("formulas", S + "GaussianProfile.cpp, JeongPeakWidth.cpp, SphericalShapeEnvelope.cpp, ..."), ("msd along a direction", S + "PDFUtils.cpp meanSquareDisplacement")])
prop("C15", "Structure differences account for every changed atom",
     "The difference between two structures lists as removed and added exactly those sites whose atoms do not match, either site by site or, when that leaves too much to do, "
     "irrespective of the order with atoms counted with multiplicity, so that removing the one and adding the other turns the first structure into the second. "
     "Structures that have different bonds at the same sites - another kind of structure, lattice, set of symmetry operations or symmetry precision - differ in all their sites; "
     "a structure does not differ from itself. Atoms are equal exactly when all their fields are, and their ordering is total and consistent with equality.",
     ["inputs"], "every pair of structures, with repeated, reordered, moved and retyped atoms",
     "Tests compare a few edited structures.",
     [S + "StructureDifference.cpp", S + "AtomicStructureAdapter.cpp", S + "CrystalStructureAdapter.cpp", S + "PeriodicStructureAdapter.cpp"],
     [("diff algorithm", S + "AtomicStructureAdapter.cpp diff"), ("atom comparison", S + "AtomicStructureAdapter.cpp operator==, operator<")])
prop("C16", "Symmetry expansion yields each equivalent site once",
     "For every set of symmetry operations and every asymmetric unit, the expanded sites are exactly the distinct images of the sites in the "
     "unit cell within the position tolerance, with multiplicities equal to their number and displacement tensors rotated with the site.",
     ["inputs"], "every operation list, tolerance and asymmetric unit",
     "Tests expand a few space groups.",
     [S + "CrystalStructureAdapter.cpp"], [("expansion", S + "CrystalStructureAdapter.cpp expandLatticeAtom/updateSymmetryPositions")])
prop("C17", "Degree trigonometry and tolerant comparisons are exact where promised",
     "Sine, cosine and their inverses in degrees equal the true function for every argument and are exact at the special angles; for every pair "
     "of numbers exactly one of tolerant less, equal and greater holds, and sequence comparisons follow from the element comparisons.",
     ["inputs"], "every angle, every cosine, every pair of numbers and sequences",
     "Tests check a handful of angles and pairs.",
     ["src/diffpy/mathutils.hpp", "src/diffpy/mathutils.ipp", S + "R3linalg.cpp"],
     [("special angles", "src/diffpy/mathutils.ipp cosd/sind/acosd/asind"), ("tolerant comparison", "src/diffpy/mathutils.hpp EpsilonLess/EpsilonEqual")])
prop("C18", "Named attributes and class registries resolve names faithfully",
     "Reading a named attribute returns what its getter yields and writing passes the value to its setter, for every registered name; unknown "
     "names and writes to read-only attributes are rejected without effect; a registry creates an independent object of the type registered under a name or alias.",
     ["histories", "inputs"], "every name and every sequence of registrations",
     "Tests use the built-in names.",
     ["src/diffpy/Attributes.cpp", "src/diffpy/Attributes.ipp", "src/diffpy/HasClassRegistry.ipp"],
     [("attribute access", "src/diffpy/Attributes.cpp"), ("prototype registry", "src/diffpy/HasClassRegistry.ipp")])
prop("C19", "Change counters order all events in time",
     "Change counters are totally ordered by the time of their last click: a counter clicked later compares newer than every counter clicked "
     "earlier and than every never-clicked counter, and updating from another counter yields the newer of the two.",
     ["histories"], "every sequence of clicks and updates over any number of counters, including counter overflow",
     "Tests click a few counters; order must survive any number of clicks.",
     ["src/diffpy/EventTicker.cpp"], [("global counter", "src/diffpy/EventTicker.cpp")])
prop("C20", "Saving and loading an object preserves its behavior",
     "Every serializable object restored from its saved form equals the original: same settings, same structure and same computed values.",
     ["inputs", "configurations"], "every serializable object in every state",
     "Tests save a few default-configured objects.",
     ["src/diffpy/serialization.hpp", S + "*.hpp"], [("serialize member templates", S + "*.hpp")])
prop("C21", "Debye sums evaluate the Debye formula on the requested Q grid",
     "Debye-type calculators produce values exactly on the Q grid that the range and step define, and each value equals the direct Debye sum "
     "over all pairs with the configured factors, thermal damping and normalization.",
     ["inputs", "configurations"], "every structure, Q range, step and damping model",
     "Tests compare a few structures to reference values.",
     [S + "BaseDebyeSum.cpp", S + "DebyePDFCalculator.cpp", S + "PDFUtils.cpp"],
     [("Q grid", S + "BaseDebyeSum.cpp qminPoints/totalQPoints"), ("pair term", S + "BaseDebyeSum.cpp addPairContribution")])
prop("C23", "Wrapped structures change only what they promise to change",
     "A structure wrapped by nometa or nosymmetry reports the same sites (types, positions, occupancies, anisotropies, displacement tensors) as the wrapped one and follows its changes; "
     "nometa only keeps the structure from configuring the calculator, whereas density, multiplicities and bonds stay the same; nosymmetry drops symmetry and periodic images, so every site "
     "counts once, density is zero and only bonds within the listed sites remain, while metadata are passed on. Total occupancy and largest displacement follow from the sites. "
     "Wrappers of the same kind do not pile up, a wrapped null pointer is an empty structure, a clone wraps a copy of the wrapped structure, and differences of wrapped structures "
     "give the same results as a full evaluation.",
     ["inputs"], "every wrapped structure, including nested wrappers",
     "Tests wrap two structures; nesting orders, clones, differences and totals vary with the input.",
     [S + "NoMetaStructureAdapter.cpp", S + "NoSymmetryStructureAdapter.cpp", S + "StructureAdapter.cpp"],
     [("delegation", S + "NoMetaStructureAdapter.cpp, NoSymmetryStructureAdapter.cpp"), ("totals", S + "StructureAdapter.cpp")])
