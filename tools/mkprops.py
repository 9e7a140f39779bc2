#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only for readable editing)."""
import json, os
S = "src/diffpy/srreal/"
D = "src/diffpy/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Incremental evaluation equals full evaluation",
 "With the OPTIMIZED evaluator selected, every result of the PDF, Debye-sum PDF and bond calculators (PDF, RDF, F(Q), distances, directions, sites, types) equals, to roundoff (and to the Debye precision for the Debye sum), the result of an identically configured calculator with the BASIC evaluator after the same history. The history may interleave evaluations of structures edited by adding, removing, moving, reordering or re-typing sites or changing the lattice or symmetry, switches between structure kinds, setStructure without evaluation, configuration, mask and component-parameter changes, switching of the evaluator type, and copies made through serialization. No such history makes the fast update skip or double-count a pair, read stale configuration or abort.",
 ["histories", "inputs", "configurations"],
 "every finite history of configure / edit / setStructure / evaluate / mask / switch-evaluator / clone operations over molecules, periodic structures and symmetric crystals",
 "Existing tests run a handful of fixed two-step sequences; the guarantee is about arbitrary histories, where stale caches, partial value stash/restore and structure differencing interact.",
 [S+"PQEvaluator.cpp", S+"PairQuantity.cpp", S+"StructureDifference.cpp", S+"AtomicStructureAdapter.cpp", S+"PeriodicStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"PDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"DebyePDFCalculator.cpp", S+"BondCalculator.cpp", D+"EventTicker.cpp"],
 [("fast update from popped/added sites", S+"PQEvaluator.cpp PQEvaluatorOptimized::updateValue"), ("change tickers", D+"EventTicker.cpp and ticker() overrides"), ("stash/restore of partial values", S+"*Calculator.cpp stashPartialValue/restorePartialValue"), ("structure difference", S+"*StructureAdapter.cpp diff")],
 ["getPDF/getRDF/getF/getExtended*", "BondCalculator accessors", "getEvaluatorTypeUsed"])

prop("C02", "Merged parallel evaluation equals serial evaluation",
 "For any pair calculator and any number of workers n, splitting the evaluation with setupParallelRun(i, n) over n calculator copies and merging their parallel data into a master gives the same results as a serial evaluation, in any merge order. Every bond is counted by exactly one worker. Merging more than n parts or data of a wrong size is rejected with an exception.",
 ["schedules", "inputs", "configurations"],
 "every calculator type, structure, configuration, worker count (including more workers than sites) and merge order",
 "Tests use one or two worker counts on fixed structures; the claim is for any split and order, and for all calculators.",
 [S+"PQEvaluator.cpp", S+"PairQuantity.cpp", S+"BondCalculator.cpp", S+"OverlapCalculator.cpp", S+"PDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"BVSCalculator.cpp"],
 [("split by running pair index", S+"PQEvaluator.cpp PQEvaluatorBasic::updateValue"), ("merge", S+"PairQuantity.cpp mergeParallelData / executeParallelMerge")],
 ["value()", "calculator accessors after merge"])

prop("C03", "Serialization round trip preserves state and behaviour",
 "Saving any calculator, structure, table, profile, width model, envelope, baseline or lattice to an archive and loading it back (in the same or in another process) yields an object with equal configuration, attributes, masks, custom table data and current results (the type of the evaluator used last is not part of the state). Continuing the original and the copy with the same further operations gives the same results on both.",
 ["histories", "inputs", "configurations"],
 "every serializable (exported) class in every reachable configuration and evaluation state, including after evaluation and with any evaluator type, followed by any further operations",
 "Tests serialize a few default objects and compare a few fields; the property is about every field that affects later behaviour.",
 [D+"serialization.hpp", D+"serialization.ipp", S+"PairQuantity.hpp", S+"PDFCalculator.hpp", S+"DebyePDFCalculator.hpp", S+"BaseDebyeSum.hpp", S+"BVSCalculator.hpp", S+"OverlapCalculator.hpp", S+"BondCalculator.hpp", S+"PQEvaluator.cpp", S+"AtomicStructureAdapter.hpp", S+"PeriodicStructureAdapter.hpp", S+"CrystalStructureAdapter.hpp", S+"Lattice.hpp", S+"ScatteringFactorTable.hpp", S+"AtomRadiiTable.hpp", S+"BVParametersTable.hpp", S+"PeakProfile.hpp", S+"PeakWidthModel.hpp", S+"PDFEnvelope.hpp", D+"EventTicker.hpp"],
 [("boost serialize members", "serialize() in each class"), ("pointer export", "BOOST_CLASS_EXPORT in each .cpp")],
 ["diffpy::serialization_tostring / serialization_fromstring", "public getters", "eval() after load"])

prop("C04", "Bond generators enumerate every pair image exactly once",
 "For a molecule, a periodic structure or a crystal with symmetry, the bond generator of any anchor site yields, for any selection of partner sites and any distance limits, exactly the set of site images found by exhaustive search with rmin <= distance <= rmax, each exactly once, excluding the anchor itself. Reported endpoints, displacement, distance, site indices, multiplicity and displacement tensors belong to that pair, and rewinding or re-selecting gives the same enumeration.",
 ["inputs", "configurations", "histories"],
 "every cell shape (including strongly skewed), atoms inside or outside the unit cell, distance limits, anchor and site selections, symmetry operations",
 "Tests count neighbours in a few high-symmetry cells; completeness has to hold for every cell shape, offset and range.",
 [S+"BaseBondGenerator.cpp", S+"PeriodicStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"PointsInSphere.cpp", S+"AtomicStructureAdapter.cpp"],
 [("sphere with unit cell diagonal buffer", S+"PeriodicStructureAdapter.cpp PeriodicStructureBondGenerator"), ("iteration and skip of self pairs", S+"BaseBondGenerator.cpp")],
 ["BaseBondGenerator public interface"])

prop("C05", "Bond list and pair count are complete, sorted and filterable",
 "The bond calculator returns, sorted by distance and then by site indices, exactly the directed bonds within [rmin, rmax] of the structure, with distances, directions, sites and types that belong together. Pair masks and cone filters remove exactly the bonds they describe: with cone filters a bond is kept when its angle from at least one cone axis does not exceed that cone's half-angle. The pair counter counts exactly the unmasked pairs within the range.",
 ["inputs", "configurations"],
 "every structure kind, range, mask and set of cone filters",
 "Tests check a few bond lengths and one or two cones; the claim is set equality for all inputs.",
 [S+"BondCalculator.cpp", S+"PairCounter.cpp", S+"PairQuantity.cpp"],
 [("cone filter", S+"BondCalculator.cpp checkConeFilters"), ("sorting", S+"BondCalculator.cpp BondOp / finishValue")],
 ["BondCalculator accessors", "PairCounter::operator()"])

prop("C06", "Symmetry expansion is exact and calculator-independent",
 "For a crystal given by an asymmetric unit and symmetry operations, the equivalent atoms of a site are exactly its distinct images inside the unit cell (images closer than the symmetry tolerance are one atom), with correctly rotated displacement tensors, and the site multiplicity is their number; both follow any change of the operations, the tolerance or the number of sites. Every calculator gives the same result for such a crystal as for the same structure written out explicitly without symmetry.",
 ["inputs", "configurations"],
 "every space-group operation set, cell compatible with it, general and special positions including near cell boundaries, and all calculators",
 "Tests cover one rutile/nickel-like example; exactness depends on position, boundary wrap-around, order of operations and site multiplicities.",
 [S+"CrystalStructureAdapter.cpp", S+"CrystalStructureAdapter.hpp", S+"BVSCalculator.cpp", S+"PDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"OverlapCalculator.cpp"],
 [("expansion of symmetry operations", S+"CrystalStructureAdapter.cpp expandLatticeAtom/findEqualPosition"), ("site multiplicity weighting", S+"PQEvaluator.cpp, *Calculator.cpp")],
 ["getEquivalentAtoms", "siteMultiplicity", "totalOccupancy", "numberDensity", "calculator results"])

prop("C07", "Lattice point enumeration is exact",
 "Iterating lattice points in a spherical shell, or reflections in a d-spacing range, for any unit cell visits exactly the integer triples whose vector length (or d-spacing) lies within the limits (points exactly at a limit are subject to roundoff), each exactly once, with the matching reported length. Rewinding repeats the enumeration, and a copy of an iterator continues independently of the original, also when limits or lattice parameters differ between instances.",
 ["inputs"],
 "every triclinic cell and every pair of limits",
 "Tests compare a few cubic and orthorhombic cells; exactness of the search bounds matters for skewed cells.",
 [S+"PointsInSphere.cpp", S+"PointsInSphere.hpp"],
 [("bounded nested search over h,k,l", S+"PointsInSphere.cpp")],
 ["PointsInSphere, ReflectionsInQminQmax, ReflectionsInDmaxDmin public interface"])

prop("C08", "Lattice geometry is self-consistent",
 "For any valid lattice parameters or base vectors, lengths, angles, volume, metric tensor, base, reciprocal base and reciprocal parameters are mutually consistent, Cartesian/fractional conversion of vectors and tensors are exact inverses, dot products, norms, distances and angles agree with Cartesian geometry for all vectors, and unit-cell wrapping moves a point by a lattice vector to fractional coordinates in [0, 1). The reported maximum unit cell diagonal is the longest cell diagonal. Two lattices compare equal exactly when their parameters and orientation are equal.",
 ["inputs"],
 "every valid lattice (any shape, orientation, handedness) and every vector and tensor",
 "Tests check a few lattices at fixed points.",
 [S+"Lattice.cpp", S+"Lattice.hpp"],
 [("metrics and base update", S+"Lattice.cpp setLatPar/setLatBase/updateMetrics/updateStandardBase")],
 ["Lattice public interface"])

prop("C09", "Real-space PDF equals its defining pair sum",
 "For any structure and configuration, the real-space calculator's RDF, PDF, RDF per r and F(Q) equal those of the defining formula: a sum over all ordered pairs within reach of the r-range of peak profiles of the given width, weighted by scattering factors, occupancies and multiplicities, then baseline, envelopes and band limiting to [qmin, qmax] applied as documented. Results are on the r-grid of multiples of rstep in [rmin, rmax). The pairs within reach are those in the extended r-range (limited by maxextension), and nothing beyond the stated peak precision is lost of them. The real-space calculator is used with scattering factors that are finite and nonzero at Q=0.",
 ["inputs", "configurations"],
 "every structure kind with occupancies, isotropic and anisotropic displacements, radiation type, peak profile, width model, envelopes, baseline, Q limits, r-grid and extension",
 "Tests compare a few fixed curves for two structures; grid, cut-off and normalization logic must hold for all settings.",
 [S+"PDFCalculator.cpp", S+"PDFUtils.cpp", S+"PDFUtils.ipp", S+"PairQuantity.cpp", S+"PQEvaluator.cpp", S+"BaseBondGenerator.cpp"],
 [("pair sum on grid", S+"PDFCalculator.cpp addPairContribution"), ("range extension and ripple cut", S+"PDFCalculator.cpp cacheRlimitsData/cutRipplePoints"), ("FFT band limit", S+"PDFCalculator.cpp getExtendedPDF/getF")],
 ["PDFCalculator getters"])

prop("C10", "Debye-sum F(Q) and PDF equal their defining sums",
 "For any structure and configuration, the Debye-sum calculator's F(Q) equals the Debye sum over all pairs in its distance range with Q-dependent scattering factors, per-site occupancies and displacement damping, to within the stated Debye precision, on the Q-grid of multiples of qstep; the pairs are those in the extended r-range as limited by maxextension. Its PDF is the sine transform of F(Q) limited to [qmin, qmax] on the r-grid with envelopes applied, and RDF is the PDF times r.",
 ["inputs", "configurations"],
 "every structure with mixed occupancies per element, radiation type, Q-grid, r-range and precision",
 "Tests compare two fixed curves with unit occupancies.",
 [S+"BaseDebyeSum.cpp", S+"DebyePDFCalculator.cpp", S+"PDFUtils.cpp"],
 [("Debye sum", S+"BaseDebyeSum.cpp addPairContribution/getF"), ("scattering factor cache", S+"BaseDebyeSum.cpp cacheStructureData"), ("r-limits", S+"DebyePDFCalculator.cpp cacheRlimitsData")],
 ["getF", "getPDF", "getRDF", "getQgrid", "getRgrid"])

prop("C11", "Pair masks select exactly the requested pairs",
 "After any sequence of mask commands (all pairs, single pairs, one site with all, atom types, invert) in any order relative to assigning a structure, the reported pair mask is symmetric and equals that of the last applicable command for each pair, and calculators sum exactly the unmasked pairs. Masks by index and masks by type are alternative modes: the first type command discards index commands, and an index command after type commands starts from the type mask as resolved for the assigned structure. The results for a mask and for its inverse add up to the unmasked result, and partial sums over a partition of type pairs add up to the total.",
 ["histories", "inputs"],
 "every sequence of mask commands and structures, every calculator",
 "Tests apply a few fixed masks on one structure.",
 [S+"PairQuantity.cpp", S+"PairQuantity.hpp", S+"PQEvaluator.cpp"],
 [("mask storage and structure refresh", S+"PairQuantity.cpp setPairMask/setTypeMask/updateMaskData")],
 ["getPairMask", "getTypeMask", "value()", "calculator results"])

prop("C12", "Bond valence sums follow the bond valence formula",
 "For any structure, each site's bond valence sum equals the sum over its neighbours of exp((Ro - d)/B) with the table parameters for that pair of ions, weighted by neighbour occupancy and signed as the site's own valence, complete to within the valence precision. Differences and their mean-square and root-mean-square values are the occupancy- and multiplicity-weighted statistics of expected minus calculated valence magnitudes.",
 ["inputs", "configurations"],
 "every structure kind, ion types and valence assignments, custom parameters, occupancies, precision and range",
 "Tests cover NaCl-like examples with equal multiplicities and full occupancy.",
 [S+"BVSCalculator.cpp", S+"BVParam.cpp", S+"BVParametersTable.cpp", S+"AtomUtils.cpp"],
 [("pair contribution", S+"BVSCalculator.cpp addPairContribution"), ("range from precision", S+"BVSCalculator.cpp rmaxFromPrecision")],
 ["valences", "bvdiff", "bvmsdiff", "bvrmsdiff", "value"])

prop("C13", "Atom overlap results follow hard-sphere overlap geometry",
 "For any structure, range and radius table the overlap calculator reports exactly the pairs within range with their overlaps (sum of radii minus distance, when positive), per-site and total square overlaps, coordinations (by site and type), neighbour sets and connected neighbourhoods that follow from them. Swap differences equal the change of the total (mean) square overlap when the radii of two sites are exchanged, and gradients equal the derivative of the total square overlap, for full and partial occupancies (for a site of a symmetric crystal with all its symmetry images moving along, in the frame of the first image; coincident atoms have no gradient).",
 ["inputs", "configurations", "histories"],
 "every structure kind, occupancy, radius table, mask, range, site pair; also after re-evaluation, merging and serialization",
 "Tests use one or two small structures with unit occupancies.",
 [S+"OverlapCalculator.cpp", S+"AtomRadiiTable.cpp", S+"ConstantRadiiTable.cpp"],
 [("overlap and flips", S+"OverlapCalculator.cpp suboverlap/flipDiffTotal"), ("neighbour cache", S+"OverlapCalculator.cpp getNeighborIds")],
 ["OverlapCalculator accessors"])

prop("C14", "Results are invariant under equivalent descriptions",
 "All calculators give the same physical results when the structure is rigidly rotated or shifted, when its sites are listed in another order, when atoms of a periodic structure are moved by lattice vectors, when the same lattice is described by another unit cell, or when a supercell replaces the cell. Per-site results follow the site, and overall results are unchanged. (Symmetry images which are merged within the tolerance but not identical are averaged, thus repeated descriptions of such sites are excluded.)",
 ["inputs", "configurations"],
 "every structure and every rotation, translation, permutation, lattice translation, unimodular change of cell and supercell",
 "Metamorphic relation over all inputs; tests have none.",
 [S+"PairQuantity.cpp", S+"PQEvaluator.cpp", S+"PDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"BVSCalculator.cpp", S+"OverlapCalculator.cpp", S+"BondCalculator.cpp", S+"PeriodicStructureAdapter.cpp", S+"JeongPeakWidth.cpp", S+"DebyeWallerPeakWidth.cpp", S+"StructureAdapter.cpp"],
 [("pair sums over bond generators", S+"PQEvaluator.cpp"), ("mean square displacement", S+"StructureAdapter.cpp meanSquareDisplacement")],
 ["calculator results"])

prop("C15", "Structures behave as value containers with exact differencing",
 "Atomic, periodic and crystal structures behave as sequences of atoms under any sequence of insert, append, erase, assign and element edits; clones are independent copies and equality holds exactly when type-specific content (atoms, lattice, symmetry operations) is equal. Atom equality, ordering and hash are mutually consistent. A structure difference, when it names removed and added sites, reconstructs the second structure's site multiset from the first, and reports no change only for structures that give identical bonds.",
 ["histories", "inputs"],
 "every edit history and every pair of structures of the same or different kind",
 "Tests edit a single structure in fixed ways.",
 [S+"AtomicStructureAdapter.cpp", S+"AtomicStructureAdapter.hpp", S+"PeriodicStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"StructureDifference.cpp", S+"StructureAdapter.cpp", S+"R3linalg.cpp"],
 [("atom comparison", S+"AtomicStructureAdapter.cpp operator</==/hash_value"), ("difference", S+"*StructureAdapter.cpp diff")],
 ["public container interface", "diff()", "operator==, <, hash_value"])

prop("C16", "Named double attributes mirror the configuration exactly",
 "Every double attribute of a calculator, profile, width model, envelope or baseline can be read by name with the same value as its getter, and writing it by name has the same effect on getters, other attributes and results as the corresponding setter. Attributes of currently used components appear and vanish with those components, unknown names and writes to read-only names throw without changing anything, and the lists of all and of writable names match what can be read and written.",
 ["histories", "configurations"],
 "every sequence of attribute reads and writes, setter calls and component replacements, on every attribute owner",
 "Tests look at one or two attributes of toy objects.",
 [D+"Attributes.cpp", D+"Attributes.ipp", D+"Attributes.hpp", S+"PDFCalculator.cpp", S+"DebyePDFCalculator.cpp", S+"PDFEnvelope.cpp", S+"PeakWidthModel.cpp"],
 [("visitor dispatch", D+"Attributes.cpp"), ("accept overrides", S+"PDFCalculator.cpp, DebyePDFCalculator.cpp, BVSCalculator.cpp")],
 ["getDoubleAttr", "setDoubleAttr", "hasDoubleAttr", "namesOf*DoubleAttributes"])

prop("C17", "Sine transforms and Q/r grids are exact",
 "The sine transforms between G(r) and F(Q) equal the discrete sine sum of their definition on the documented grid, are inverse to each other on padded grids, are linear, and honour a non-zero lower grid limit. The r-grid and Q-grid returned by the calculators consist of the integer multiples of the step within the half-open range from the lower to the upper limit (the Q-grid starts at zero, and F is zero below Qmin), robust to floating-point roundoff of the limits.",
 ["inputs", "configurations"],
 "every signal, grid step, lower limit and length",
 "Tests only see the transforms through a few curves.",
 [S+"PDFUtils.cpp", S+"PDFUtils.ipp", S+"PDFCalculator.cpp", S+"DebyePDFCalculator.cpp", S+"BaseDebyeSum.cpp"],
 [("FFT wrappers", S+"PDFUtils.cpp"), ("step counting", S+"PDFUtils.ipp")],
 ["fftgtof", "fftftog", "getRgrid", "getQgrid"])

prop("C18", "Scattering factor lookups follow standard data and custom overrides",
 "For any sequence of custom definitions, rescalings, resets, clones and serialization, a scattering factor lookup returns the value scaled or aliased by the last applicable custom setting, or otherwise the tabulated standard value of that radiation type for the symbol, with documented treatment of isotopes, ions and letter case. Symbols are case-sensitive. Electron factors follow from X-ray factors and the number of electrons by the Mott-Bethe relation, electron numbers equal Z minus charge, unknown symbols are rejected with an exception, and any effective change is visible to dependent calculators.",
 ["histories", "inputs"],
 "every table type, symbol form, Q value and sequence of custom operations",
 "Tests check a dozen symbols.",
 [S+"ScatteringFactorTable.cpp", S+"SFTXray.cpp", S+"SFTNeutron.cpp", S+"SFTElectron.cpp", S+"SFTElectronNumber.cpp", S+"scatteringfactordata.cpp"],
 [("custom storage", S+"ScatteringFactorTable.cpp"), ("standard lookup", S+"SFT*.cpp, scatteringfactordata.cpp")],
 ["lookup", "standardLookup", "setCustomAs", "resetCustom", "getCustomSymbols"])

prop("C19", "Radius and bond-valence parameter tables behave as overriding maps",
 "Custom radii and bond-valence parameters override, and resets restore, the standard values for any sequence of operations; text form of custom radii parses back to equal radii. Bond-valence lookup does not depend on the order of the two ions, prefers custom over standard entries, honours per-type valence assignments, and converts between bond distance and valence consistently.",
 ["histories", "inputs"],
 "every sequence of table operations and every symbol and ion pair",
 "Tests check a few values.",
 [S+"AtomRadiiTable.cpp", S+"ConstantRadiiTable.cpp", S+"BVParametersTable.cpp", S+"BVParam.cpp", S+"AtomUtils.cpp"],
 [("custom maps", S+"AtomRadiiTable.cpp, BVParametersTable.cpp"), ("ion symbol parsing", S+"AtomUtils.cpp")],
 ["lookup", "setCustom", "resetCustom", "toString/fromString", "getAll"])

prop("C20", "Peak profiles, widths, envelopes and baselines match their formulas",
 "Peak profiles are normalized, have the requested full width at half maximum, and fall below the requested relative precision outside their reported bounds for every width. Each width model returns its documented function of the pair, and its reported maximum width is never smaller than the width of any pair in the structure and range (for non-negative delta1 and delta2 of the Jeong model). Envelopes and baselines return their documented functions for all r and parameters.",
 ["inputs", "configurations"],
 "every width, precision, pair, structure, r and parameter value, including limiting values",
 "Tests sample a few points.",
 [S+"GaussianProfile.cpp", S+"CroppedGaussianProfile.cpp", S+"PeakProfile.cpp", S+"ConstantPeakWidth.cpp", S+"DebyeWallerPeakWidth.cpp", S+"JeongPeakWidth.cpp", S+"QResolutionEnvelope.cpp", S+"ScaleEnvelope.cpp", S+"SphericalShapeEnvelope.cpp", S+"StepCutEnvelope.cpp", S+"LinearBaseline.cpp", S+"ZeroBaseline.cpp", S+"StructureAdapter.cpp"],
 [("formulas", "operator() / calculate / maxWidth in each class")],
 ["operator()", "xboundlo/hi", "calculate", "maxWidth"])

prop("C21", "Rejected requests leave objects unchanged",
 "Every call with an invalid argument (negative or out-of-range limits and steps, null components, unknown component or symbol names, malformed text, out-of-range indices, unsupported evaluator types) throws a standard exception, and leaves the object with the same configuration and the same later results as if the call had not been made. An evaluation that fails because of an unknown atom symbol does not spoil the results of later evaluations of other structures.",
 ["inputs", "histories"],
 "every public setter and every invalid argument value at any point of a history",
 "Tests check that some calls throw, not what state remains.",
 [D+"validators.hpp", S+"PairQuantity.cpp", S+"PDFCalculator.cpp", S+"DebyePDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"Lattice.cpp", S+"CrystalStructureAdapter.cpp", S+"AtomRadiiTable.cpp", S+"ScatteringFactorTable.cpp", S+"PDFEnvelope.cpp", S+"PeakWidthModel.cpp"],
 [("argument validation before assignment", D+"validators.hpp and setters")],
 ["public setters and getters"])

prop("C22", "Component registries and envelope sets behave as maps of prototypes",
 "Creating a component by registered type name or alias returns a fresh object of that type with default parameters, independent of all others. Registering, aliasing and deregistering types acts as a map from names to prototypes, rejects conflicting names, and is reflected by the listings of types and aliases. The envelopes attached to a calculator act as a map keyed by type under any sequence of add, replace, pop and clear, and the calculator applies their product. Setting a peak profile by type keeps the precision of the previous profile.",
 ["histories"],
 "every sequence of registry and envelope operations on every component family",
 "Tests exercise fixed sequences on one family.",
 [D+"HasClassRegistry.ipp", D+"HasClassRegistry.hpp", S+"PDFEnvelope.cpp", S+"PeakProfile.cpp", S+"PDFBaseline.cpp", S+"PeakWidthModel.cpp", S+"ScatteringFactorTable.cpp", S+"AtomRadiiTable.cpp"],
 [("prototype registry", D+"HasClassRegistry.ipp"), ("envelope storage", S+"PDFEnvelope.cpp PDFEnvelopeOwner")],
 ["createByType", "aliasType", "deregisterType", "getRegisteredTypes", "usedEnvelopeTypes"])

prop("C23", "External crystal objects convert to equivalent structures",
 "A crystal or molecule object of the supported external crystallography library converts to a structure with the same atoms, occupancies, displacement parameters, lattice and symmetry-equivalent positions as the external object describes, so that every calculator gives the same result as for an equivalent structure built directly.",
 ["inputs"],
 "every external crystal (space group, lattice, scatterers, occupancies, B and beta tensors) and molecule",
 "Tests load three fixed files.",
 [S+"ObjCrystStructureAdapter.cpp", S+"CrystalStructureAdapter.cpp", S+"AtomicStructureAdapter.cpp"],
 [("conversion", S+"ObjCrystStructureAdapter.cpp createStructureAdapter")],
 ["createStructureAdapter", "calculator results"])

prop("C24", "Structure wrappers hide exactly one aspect",
 "The no-symmetry wrapper exposes the same sites as the wrapped structure with symmetry and periodicity ignored: only direct pairs, unit multiplicity, and no number density. The no-metadata wrapper behaves identically to the wrapped structure in all respects except custom calculator configuration. Wrapping twice equals wrapping once, and wrappers track the wrapped structure through cloning, differencing and serialization. Custom configuration is hidden by a no-metadata wrapper anywhere in the chain and forwarded by the no-symmetry wrapper.",
 ["inputs", "histories"],
 "every structure kind, nesting and calculator",
 "Tests wrap one structure and check few fields.",
 [S+"NoMetaStructureAdapter.cpp", S+"NoSymmetryStructureAdapter.cpp"],
 [("forwarding", S+"NoMetaStructureAdapter.cpp, NoSymmetryStructureAdapter.cpp")],
 ["StructureAdapter interface", "calculator results on wrapped structures"])

prop("C25", "Vector, matrix and tolerance arithmetic is correct",
 "Determinant, inverse, products, cross and dot products, floor and norms of 3D vectors and matrices agree with their mathematical definition for all finite well-conditioned inputs, and degree-based trigonometric functions agree with radian ones (exactly at special angles). Tolerance comparisons are consistent with each other and symmetric, and equal vectors and matrices have equal hashes.",
 ["inputs"],
 "all finite vectors, matrices and numbers",
 "Tests check a few fixed matrices.",
 [S+"R3linalg.cpp", S+"R3linalg.hpp", D+"mathutils.hpp", D+"mathutils.ipp"],
 [("linear algebra", S+"R3linalg.cpp"), ("trigonometry and eps comparison", D+"mathutils.ipp")],
 ["R3 functions", "mathutils functions"])

prop("C26", "Evaluation depends only on current configuration and structure",
 "The results of a calculator that was used before, on any structures and with any configuration, equal those of a fresh calculator given the current configuration and structure. Every configuration change made through the public interface, including in-place changes of shared components (profiles, width models, tables) and of the structure object, takes effect at the next evaluation, and evaluating one calculator never changes results of another. Edits of atoms of a symmetric crystal take effect at the next evaluation when site multiplicities are kept; its other in-place edits take effect after the symmetry positions are updated. The Debye-sum calculator may keep a pair range longer by up to 50 r-steps, and gives up a custom Q-step for good once its range needed a finer one.",
 ["histories", "configurations"],
 "every history of reconfiguration and evaluation on every calculator type with the default evaluator",
 "Tests mostly evaluate fresh calculators once.",
 [S+"PairQuantity.cpp", S+"PDFCalculator.cpp", S+"DebyePDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"BVSCalculator.cpp", S+"OverlapCalculator.cpp", S+"BondCalculator.cpp", S+"PeakWidthModel.cpp", S+"ScatteringFactorTable.cpp"],
 [("resetValue and per-structure caches", S+"*Calculator.cpp resetValue/cacheStructureData")],
 ["calculator results"])

prop("C27", "Data files and text lines are located and parsed reliably",
 "The runtime data path resolves to the directory named by the environment variable when it is set (rejecting a nonexistent one) and otherwise to the library's own data, and follows changes of the variable; a rejected value does not affect later lookups. Line parsing splits any text into words by blanks or a separator, counts lines, and recognizes blank and comment lines; a trailing empty field of a separated line is dropped. Data tables are loaded once at the first successful lookup, and a failed load has no effect. Damaged lines of the scattering data files are rejected with an error that names the file and the line.",
 ["inputs", "histories", "configurations"],
 "every text, separator, comment mark, environment value and sequence of lookups",
 "Tests check one value of each.",
 [D+"runtimepath.cpp", D+"runtimepath.hpp"],
 [("path resolution", D+"runtimepath.cpp diffpyruntime"), ("line reader", D+"runtimepath.cpp operator>>")],
 ["datapath", "LineReader"])

prop("C28", "User-defined calculators, structures and components work alike",
 "A calculator derived from the pair-quantity class gets every unmasked pair within its range exactly once with the summation weight for its kind of sum (full or half, per site or not), from a full pass, from fast updates in any history, and in total over any number of parallel workers. The CHECK evaluator reports a fast update that gave wrong results, and only such. A structure derived from the structure adapter class gives the same results as an equal library structure, its own configuration and number density are applied at assignment, and user-defined peak profiles, widths, envelopes, baselines, scattering and radii tables are used by the calculators by their definition, with effect of changes announced by their tickers.",
 ["histories", "inputs", "configurations"],
 "every history of structure edits, masks, ranges and evaluator types over recording calculators and up to 8 workers; every structure and function of user-defined components",
 "Tests derive almost no classes of their own, and results of library calculators can hide contributions that cancel or are below roundoff; exact integer weights cannot.",
 [S+"PQEvaluator.cpp", S+"PairQuantity.cpp", S+"PairQuantity.hpp", S+"StructureAdapter.cpp", S+"StructureAdapter.hpp", S+"StructureDifference.cpp", S+"BaseBondGenerator.cpp", S+"PDFCalculator.cpp", S+"BaseDebyeSum.cpp", S+"OverlapCalculator.cpp", S+"PeakProfile.hpp", S+"PeakWidthModel.hpp", S+"PDFBaseline.hpp", S+"PDFEnvelope.hpp", S+"ScatteringFactorTable.hpp", S+"AtomRadiiTable.hpp"],
 [("distribution of pair contributions", S+"PQEvaluator.cpp updateValue"), ("comparison of evaluations", S+"PQEvaluator.cpp PQEvaluatorCheck"), ("custom configuration", S+"PairQuantity.cpp applyStructure"), ("defaults of the structure interface", S+"StructureAdapter.cpp")],
 ["addPairContribution of a derived class", "value()", "calculator results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps(p) + "\n")
