NOTES = ("Every check runs the real program, built from /repo's working tree with AddressSanitizer and "
         "UndefinedBehaviorSanitizer, on generated decks and judges what it wrote with monitors that read the "
         "outputs independently (Python execution of the .comm, MED library dump of the mesh, Systus and Nastran readers).")
NOT_APPLICABLE = {}
OUT = ["files written into the output directory", "exit status", "sanitizer reports"]
WHY = ("the tests translate a fixed set of sample decks and mostly look at exit status or a few substrings; this "
       "quantifies over every legal deck")
PROPS = [
 dict(id="C09", title="Grid points are written where their coordinate systems put them",
      statement="Every grid point of the input appears in each output exactly once, at the position in the basic frame "
      "that its coordinates and its (possibly chained, possibly defined later in the file) rectangular, cylindrical or "
      "spherical coordinate system define.",
      over=["inputs", "programs"], quant="every deck of grid points placed through any chain of coordinate systems, in any card order",
      why=WHY, files=["Abstract/CoordinateSystem.cpp", "Abstract/Mesh.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp"],
      mechanism=[("conversion of local coordinates", "Abstract/CoordinateSystem.cpp positionToGlobal"), ("node lookup", "Abstract/Mesh.cpp findNode")],
      observe=OUT, technique="runtime monitoring: offline oracle over written meshes, independent coordinate transforms",
      note="held on the decks generated; oracle recomputes positions from the card definitions; CORD2x on curved reference systems is a recorded finding"),
 dict(id="C10", title="Elements keep their nodes, shape and property in every output",
      statement="Every element of the input appears exactly once in each output with its own nodes, in the order the target's "
      "numbering convention gives that shape; elements are in the same property group exactly when they had the same property; "
      "no output element comes from nowhere.",
      over=["inputs", "programs"], quant="every mesh of supported one-, two- and three-dimensional elements, in any numbering and card order",
      why=WHY, files=["Nastran/NastranParser_geometry.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Abstract/Mesh.cpp"],
      mechanism=[("node order tables", "NastranParser_geometry.cpp, SystusWriter.cpp, NastranWriter.cpp"), ("property groups", "NastranParser_geometry.cpp addProperty")],
      observe=OUT, technique="runtime monitoring: conservation oracle between input cards and written cells",
      note="held on the generated meshes; node order judged against the published MED, Systus and Nastran conventions"),
 dict(id="C11", title="Bars, beams and bushes keep their element axes",
      statement="Every bar and beam (in all outputs) and every bush element (Systus, Nastran) has in the output the local axes the deck "
      "defines: x from its first to its second end, y in the half plane of x and the orientation, given as a vector in the displacement "
      "frame of the first end (blank components are zero), as a node, or for bushes as a coordinate system; the displacement frames of "
      "nodes (Systus) and the coordinate systems themselves (Nastran) keep their axes too, also when defined upon one another.",
      over=["inputs", "programs"], quant="every set of bars, beams and bushes in any position, orientation form and frame, sharing nodes and orientations in any way",
      why=WHY, files=["Nastran/NastranParser_geometry.cpp", "Abstract/CoordinateSystem.cpp", "Abstract/Mesh.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("orientation forms", "NastranParser_geometry.cpp parseOrientation, parseCBUSH"), ("element frame", "CoordinateSystem.cpp OrientationCoordinateSystem::build, getEulerAnglesIntrinsicZYX"),
                 ("written angles", "SystusWriter.cpp writeElementLocalReferentiel, AsterWriter.cpp ORIENTATION, NastranWriter.cpp writeCells")],
      observe=OUT, technique="runtime monitoring: element frames recomputed from the deck compared with the frames the written vectors and angles define",
      note="held on the generated decks, apart from the known findings (Code_Aster bushes act in the global frame); Systus default axes as the code documents them"),
 dict(id="C12", title="Elements keep the values of their own property and material",
      statement="For every element of the input, the output gives that element the Young modulus, Poisson ratio, density (times "
      "WTMASS), structural damping, thickness, offset, area, inertias, torsional constant, shear factors, non structural mass and plies "
      "(order, thickness, angle, material) of its own property and material, whether these are given directly, through defaults, through "
      "any two of E, G and NU, or through a catalogue section; in non linear analyses its own law (elastic, plastic of MATS1, hyperelastic of MATHP) and constants; "
      "the stiffness exists exactly once; the Tsai-Wu index asked for by a composite uses the strengths of its plies.",
      over=["inputs", "programs"], quant="every set of properties and materials, values over many orders of magnitude, every way cells share them",
      why=WHY, files=["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Abstract/Element.cpp", "Abstract/Material.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("section formulas", "Abstract/Element.cpp beams"), ("defaults of materials", "Abstract/Material.cpp"), ("added mass and offset splitting", "Abstract/Model.cpp emulateAdditionalMass, splitElementsByCellOffsets"), ("written values", "AsterWriter.cpp writeMaterials, writeAffeCaraElem; SystusWriter.cpp fillMaterial; NastranWriter.cpp writeElements")],
      observe=OUT, technique="runtime monitoring: per-element value oracle recomputed from the cards, over the written materials and sections",
      note="held on the decks generated; PBARL/PBEAML sections BAR, ROD, TUBE, I; added mass offset not judged"),
 dict(id="C13", title="Every analysis imposes exactly the SPC constraints its subcase selects",
      statement="For every deck of SPC, SPC1 (lists and THRU), SPCADD and permanent (GRID PS) constraints selected above or in "
      "subcases, and of displacements that load sets impose (SPCD), every analysis written imposes on every node exactly the degrees of "
      "freedom, with exactly the values, that its own subcase selects: none missing, none from a set it does not select, and an imposed "
      "displacement replaces the fixed value of its freedom.",
      over=["inputs", "histories"], quant="every family of constraint sets and every way subcases select or inherit them",
      why=WHY, files=["Nastran/NastranParser_geometry.cpp", "Nastran/NastranParser.cpp", "Abstract/Model.cpp", "Abstract/ConstraintSet.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("constraint sets", "NastranParser_geometry.cpp parseSPC/parseSPC1/parseSPCADD"), ("writing of the constraints", "AsterWriter.cpp writeSPC, SystusWriter.cpp node constraint code")],
      observe=OUT, technique="runtime monitoring: affine-space oracle over the constraint equations each written analysis imposes",
      note="held on the decks generated; Systus judged without imposed values, SPCD not judged for Systus nor written in the cosmic dialect of Nastran"),
 dict(id="C14", title="Multi-point constraints and rigid elements keep their linear relations",
      statement="In every analysis written, the linear relations between nodal freedoms are exactly those of the MPC set its subcase "
      "selects, of every RBE2 and RBAR (the dependent freedoms follow the rigid motion of the master) and of every RBE3 (same "
      "reference freedoms, same averaged nodes, freedoms and relative weights): none missing, none added, whatever the number of "
      "terms, nodes or relations and whatever way the target expresses them.",
      over=["inputs", "histories"], quant="every family of MPC, RBE2, RBAR and RBE3 on any node positions, every subcase selection",
      why=WHY, files=["Nastran/NastranParser.cpp", "Abstract/Constraint.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("rigid bodies as equations", "Abstract/Constraint.cpp emulateWithMPCs"), ("rigid cells", "Abstract/Model.cpp makeCellsFromRBE, makeCellsFromLMPC"), ("written relations", "AsterWriter.cpp writeLMPC, writeRBE3, writeLIAISON_SOLIDE")],
      observe=OUT, technique="runtime monitoring: affine-space equivalence oracle over the written constraint equations",
      note="held on the decks generated; RBAR/partial RBE2 written to Nastran is a recorded finding; partial rigid elements not judged in Systus"),
 dict(id="C15", title="Every analysis applies exactly the nodal forces and moments of its loads",
      statement="In every analysis written, the force and moment applied to every node in the basic frame equal the sum of the FORCE, "
      "MOMENT (in any rectangular or cylindrical, possibly chained coordinate system), FORCE1 and FORCE2 cards of the load set its "
      "subcase selects, through LOAD combinations (each term with its own factor times the overall factor): nothing lost, nothing "
      "from another set, nothing counted twice.",
      over=["inputs", "histories"], quant="every family of nodal load sets, combinations and subcase selections, any coordinate systems",
      why=WHY, files=["Nastran/NastranParser.cpp", "Abstract/Loading.cpp", "Abstract/Model.cpp", "Abstract/CoordinateSystem.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("nodal forces in the basic frame", "Abstract/Loading.cpp NodalForce::localToGlobal"), ("combinations", "Abstract/Model.cpp replaceCombinedLoadSets"), ("loads of an analysis", "AsterWriter.cpp writeForceNodale, SystusWriter.cpp vectors and lists")],
      observe=OUT, technique="runtime monitoring: conservation oracle over nodal resultants recomputed from the cards",
      note="held on the decks generated; spherical load frames are refused by the program and not judged"),
 dict(id="C16", title="Surface, line and body loads act where and as their cards say",
      statement="For every deck of PLOAD4 (on shells, on any face of linear and quadratic solids, normal or along a vector, THRU), "
      "PLOAD2, PLOAD, PLOAD1, GRAV and RFORCE loads and their LOAD combinations, every analysis written applies on every face, "
      "along every beam and to the whole model exactly the traction, line force, gravity and rotation of the load set its subcase "
      "selects, each term scaled by its own factor: no face missed, no wrong face, no reversed pressure, nothing from another set.",
      over=["inputs", "histories"], quant="every mesh of loaded shells, solids and beams, every face, every combination and subcase selection, any card order",
      why=WHY, files=["Nastran/NastranParser.cpp", "Abstract/Loading.cpp", "Abstract/Model.cpp", "Abstract/MeshComponents.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("faces of solids", "Abstract/MeshComponents.cpp faces and two_nodeids_from_facenum"), ("skin generation", "Abstract/Loading.cpp createSkin, Abstract/Model.cpp generateSkin"), ("sign of pressures", "NastranParser.cpp parsePLOAD4; AsterWriter.cpp writePression; SystusWriter.cpp")],
      observe=OUT, technique="runtime monitoring: oracle over the traction on every face recomputed from geometry, orientation of written cells included",
      note="held on the decks generated; not judged: PLOAD4 with unequal corner values, CID, SORL, directional PLOAD4 on shells for Aster, PLOAD1 on beams perpendicular to X, RFORCE for Systus and Nastran"),
 dict(id="C18", title="Every subcase becomes one analysis of its own kind with its own request",
      statement="For every case control of SOL 101, 103, 105, 106 and 200, whatever is selected above the subcases and overridden inside "
      "them, the output holds exactly one analysis per subcase, in their order and of the kind asked for, on the supports and loads that "
      "subcase selects, with its own request: number or band of modes and normalization of its METHOD, increments of its NLPARM, "
      "initial state, ramps and vanishing loads of a nonlinear sequence, prestress of its STATSUB, coefficients of each SUBCOM on its subcases.",
      over=["inputs", "histories"], quant="every sequence of subcases and every mix of global and local selections",
      why=WHY, files=["Nastran/NastranParser.cpp", "Abstract/Analysis.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusDat.cpp", "Systus/SystusWriter.cpp"],
      mechanism=[("case control", "Nastran/NastranParser.cpp parseSubcase, parseSubcom, addAnalysis, addCombinationAnalysis"), ("modal requests", "NastranParser.cpp parseEIGR/parseEIGRL; AsterWriter.cpp writeCalcFreq; SystusDat.cpp writeLinearModalAnalysis"), ("nonlinear sequence", "AsterWriter.cpp writeAnalysis")],
      observe=OUT, technique="runtime monitoring: oracle replaying the case control against the recorded sequence of solver commands",
      note="held on the decks generated; not judged: modes above a lower bound only, both a count and a band (the count is), SUBCOM for Systus and Nastran, SOL 105/106 for Systus, requests in the Nastran output"),
 dict(id="C01", title="No input breaks memory safety, hits undefined behaviour, aborts or hangs",
      statement="Whatever the deck (legal, damaged, truncated, two decks spliced together) and whatever the command line, vegapp ends "
      "within bounded time with one of its documented exit codes: it never reads or writes outside its objects, never uses freed or "
      "uninitialised enumerations, never overflows signed arithmetic, never dereferences a null object, never violates a library "
      "precondition, never dies of a signal or of an exception nobody catches.",
      over=["inputs", "programs", "faults"], quant="every input file, every output format and every command line",
      why="undefined behaviour is invisible to tests that look at exit status of well formed samples; this quantifies over every file a user may feed",
      files=["Nastran/NastranParser.cpp", "Nastran/NastranTokenizer.cpp", "Nastran/NastranParser_geometry.cpp", "Optistruct/OptistructParser.cpp", "Abstract/Model.cpp", "Abstract/Mesh.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Commandline/VegaCommandLine.cpp"],
      mechanism=[("dangling references removed before writing", "Abstract/Model.cpp validate, finish"), ("per card recovery", "Nastran/NastranParser.cpp parseBULKSection"), ("documented exit codes", "Commandline/VegaCommandLine.cpp process")],
      observe=OUT, technique="sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and checked standard library over shipped, generated, damaged and spliced decks and command lines",
      note="held on the runs made; uncaught exceptions under --debug are intended; memory exhaustion by gigantic identifier ranges is not judged; leaks are not judged"),
 dict(id="C27", title="A solver run is reported for what it was",
      statement="vegapp -R runs the solver once per written study, in the output directory, on the file just written, whatever the "
      "names of directory and study; it exits 0 only if the translation succeeded and this run of the solver was launched, ended with "
      "status 0 and left fresh results without a failed test; otherwise the documented code tells what happened (not found, syntax "
      "error, killed, failed, no result, failed test). Results left by earlier runs, errors of an earlier subcase or files left by a "
      "failed run never count as success.",
      over=["histories", "faults", "inputs"], quant="every outcome of the solver, every earlier content of the output directory, every file name",
      why="the tests have no solver to run; this quantifies over what an external program may do and over earlier runs",
      files=["Aster/AsterRunner.cpp", "Systus/SystusRunner.cpp", "Nastran/NastranRunner.cpp", "Abstract/SolverInterfaces.cpp", "Commandline/VegaCommandLine.cpp"],
      mechanism=[("earlier results deleted", "SolverInterfaces.cpp deletePreviousResultFiles; SystusRunner.cpp"), ("wait status mapped", "SolverInterfaces.cpp convertExecResult"), ("tests read", "AsterRunner.cpp, SystusRunner.cpp")],
      observe=["exit status of vegapp", "calls recorded by the stand-in solver", "sanitizer reports"], technique="runtime monitoring: recording stand-in solver with injected failures, exit-status oracle over its event log",
      note="held on the runs made; the text the solvers print is that of the stand-in"),
 dict(id="C02", title="Success is reported only for complete output, and refusals are clean",
      statement="Exit status 0 means every output file is complete and on disk: when a file cannot be opened or written to its end "
      "(size limit, full device, name taken by a directory) vegapp says so and ends with a non-zero status. --strict refuses any card it "
      "does not know; best effort (the default) names the unknown card in its messages, skips it entirely and translates the rest as if it "
      "were not there. Missing or unreadable inputs, directories, unknown formats, wrong options, a missing test file or no argument at all "
      "end with a documented non-zero status, without a crash.",
      over=["faults", "inputs"], quant="every point at which writing may fail, every unknown card, every wrong request",
      why="tests never make a write fail; this quantifies over every point of failure of every output file",
      files=["Commandline/VegaCommandLine.cpp", "Abstract/Writer.cpp", "Aster/AsterWriter.cpp", "Aster/MEDWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranTokenizer.cpp"],
      mechanism=[("stream state tested after closing", "AsterWriter.cpp, SystusWriter.cpp, NastranWriter.cpp writeModel"), ("exit codes", "Commandline/VegaCommandLine.cpp process"), ("skipCommand recovery", "Nastran/NastranParser.cpp parseBULKSection")],
      observe=["exit status of vegapp", "files left", "sanitizer reports"], technique="fault injection: file size limits, full device and blocked names at every output, completeness oracle over the files left",
      note="held on the runs made; faults injected are write failures and wrong requests; power loss is not modelled"),
 dict(id="C03", title="A translation is a function of the deck and the options alone",
      statement="Translating the same deck with the same options produces the same files, the same messages and the same exit status "
      "every time: whatever the memory contained before, wherever objects are allocated, whatever the locale and environment, wherever "
      "input and output directories are and however they are named, and whatever an earlier translation left in the output directory.",
      over=["histories", "inputs", "faults"], quant="every deck, every memory layout and content, every environment and earlier output",
      why="a test runs once in one environment with benign memory; uninitialised reads, orders of pointers and leftovers only show across runs",
      files=["Abstract/Model.cpp", "Abstract/Mesh.cpp", "Abstract/Element.cpp", "Abstract/Loading.cpp", "Abstract/Constraint.cpp", "Aster/AsterWriter.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("ordered containers by id", "Abstract/Model.h Container, ptrLess"), ("files truncated when opened", "AsterWriter.cpp, SystusWriter.cpp, NastranWriter.cpp, MedWriter.cpp")],
      observe=OUT + ["console"], technique="runtime monitoring: trace comparison of runs with allocator-filled memory, shuffled heap layouts and injected leftovers",
      note="held on the runs made; the date line of the Systus file and the MED library's timestamps are excluded; MED meshes compared through the MED library"),
 dict(id="C19", title="A Code_Aster study is consistent in itself",
      statement="Every Code_Aster study written can be run as it stands: the command file executes from DEBUT to FIN; every concept it uses "
      "was created before, has the kind its keyword takes, is created once, has a legal name and was not destroyed; every group, cell and "
      "node it names exists in the mesh written with it; lists have the lengths their keywords demand; every cell has one modelling of its "
      "dimension, with the section, discrete values and material that it needs; conditions only name freedoms the nodes have; the units "
      "and files are those of the export file; every result computed is saved.",
      over=["inputs", "programs"], quant="every deck that vegapp translates to Code_Aster with exit status 0, under every option",
      why=WHY, files=["Aster/AsterWriter.cpp", "Aster/AsterModel.cpp", "Aster/MedWriter.cpp", "Abstract/Model.cpp"],
      mechanism=[("command file", "Aster/AsterWriter.cpp"), ("groups of the mesh", "Aster/MedWriter.cpp"), ("cells and properties added by the model", "Abstract/Model.cpp finish")],
      observe=OUT, technique="runtime monitoring: online typestate checker executing the written command file against the written mesh",
      note="held on every shipped deck and the decks generated; what Code_Aster itself would compute is not observed"),
 dict(id="C20", title="A Systus study or Nastran deck is consistent in itself",
      statement="Every Systus study and Nastran deck written can be read as it stands. Systus: the announced counts (nodes, elements, loads, "
      "lists, vectors, materials, groups, matrices) are the numbers of records that follow; every vector, list, table, material, node, element "
      "and matrix named exists; elements have the nodes of their type; all values are finite; the .DAT names the files written. Nastran: every "
      "card has a known name, fields of the right kind in their columns and its own continuations; numbers of nodes, elements, properties, "
      "materials, frames and sets are unique; every number referred to by a card, SET or case control line has a card.",
      over=["inputs", "programs"], quant="every deck that vegapp translates to Systus or Nastran with exit status 0, under every option",
      why=WHY, files=["Systus/SystusWriter.cpp", "Systus/SystusWriter.h", "Systus/SystusDat.cpp", "Nastran/NastranWriter.cpp", "Nastran/NastranWriter.h", "Abstract/Model.cpp", "Abstract/CoordinateSystem.cpp"],
      mechanism=[("tables and counts of the .ASC", "Systus/SystusWriter.cpp writeHeader, writeInformations, writeElements, writeVectors, writeLists"), ("commands of the .DAT", "Systus/SystusDat.cpp"),
                 ("cards", "Nastran/NastranWriter.cpp Line, writeCells, writeElements, writeModel")],
      observe=OUT, technique="runtime monitoring: offline checker of the grammar, counts and references of every file written",
      note="held on every shipped deck and the decks generated; what the solvers compute is not observed; faults of shipped decks themselves (numbers given twice, missing nodes) are set apart"),
 dict(id="C22", title="Reference results become the tests of the study, and nothing else does",
      statement="When a result file is given (-t, .f06 or .csv), the study written holds one test per displacement component, complex "
      "response, frequency and nodal Von Mises stress that file gives for a node, element and subcase of the deck: on the same node, "
      "freedom, step, mode, frequency and analysis, against the same value seen in the global frame, within the tolerance asked for (-x). "
      "Other sections of the file, its page breaks and titles, and results of nodes, elements or subcases the deck does not have create no test.",
      over=["inputs"], quant="every legal result file of every deck",
      why=WHY, files=["ResultReaders/F06Parser.cpp", "ResultReaders/CSVResultReader.cpp", "Abstract/Assertion.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
      mechanism=[("reading of tables", "ResultReaders/F06Parser.cpp add_assertions"), ("tables of Aster results", "ResultReaders/CSVResultReader.cpp convertFunc"),
                 ("tests", "Aster/AsterWriter.cpp writeAssertions, Systus/SystusWriter.cpp writeAssertions")],
      observe=OUT, technique="runtime monitoring: tests read back from the written study compared one to one with the generated references",
      note="spherical displacement frames are refused by VEGA; Systus: no stresses, steps or displacement frames; pages of stresses and complex results have their headers"),
 dict(id="C23", title="Each analysis reports its own result and the displacements its subcase asks for",
      statement="Every analysis of the study written for Code_Aster saves its own displacements to the file of results and prints one table of "
      "displacements, to a file of its own, taken from that result only: of exactly the nodes of the set that the DISPLACEMENT request in force for its subcase "
      "names (the request of the subcase replaces the one above it, whatever its options), or of all nodes when it names none. Nastran output "
      "selects per subcase one SET with the same nodes. Sets keep their members, however they are written (SET with ranges and continued lines, OptiStruct SET).",
      over=["inputs"], quant="every deck with displacement requests, over all sets, subcases and kinds of analysis",
      why=WHY, files=["Nastran/NastranParser.cpp", "Optistruct/OptistructParser.cpp", "Abstract/Objective.cpp", "Abstract/Mesh.cpp", "Aster/AsterWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("requests in force", "Nastran/NastranParser.cpp setCaseControl, addAnalysis"), ("sets", "NastranParser.cpp addSet, OptistructParser.cpp parseSET, Objective.cpp getNodeGroups"),
                 ("tables", "Aster/AsterWriter.cpp writeImprResultats")],
      observe=OUT, technique="runtime monitoring: requests, tables and groups read back from the written study compared with the case control of the deck",
      note="not judged: SET ALL/EXCEPT/INCLUDE (dismissed with a message), PHASE, OFREQUENCY and STRESS requests, nodes of sets that no card defines"),
 dict(id="C24", title="Contacts keep pairs, openings and friction and disturb no other constraint",
      statement="In every non linear static subcase, the contact of the Code_Aster study consists of exactly the gaps (CGAP/PGAP: node, "
      "direction, initial opening), sliding lines (BCONP/BLSEG/BFRIC) and contact surfaces (BSCONP/BSSEG) of the deck, or of the pairs of "
      "the contact table its BCONTACT selects (BCTABLE/BCBODY/BSURF), slave and master in their place, with their friction; an OptiStruct CONTACT ties the faces of its slave SURF to the elements of its "
      "master SURF in every analysis. A contact "
      "never drops, replaces or adds another constraint of an analysis, and linear analyses do without contacts.",
      over=["inputs"], quant="every set of gaps, lines, surfaces and tables, over all subcases",
      why=WHY, files=["Aster/AsterWriter.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Abstract/Constraint.cpp", "Abstract/Model.cpp"],
      mechanism=[("contact concepts", "Aster/AsterWriter.cpp writeDefiContact"), ("gaps and segments", "Abstract/Constraint.cpp GapTwoNodes, SlideContact, SurfaceContact, ZoneContact"),
                 ("cards", "Nastran/NastranParser.cpp parseBCTABLE, parseBCONP, parseBSSEG"), ("use by analyses", "Aster/AsterWriter.cpp writeAnalysis")],
      observe=OUT, technique="runtime monitoring: pairs and gaps rebuilt from the written study and its mesh against those of the deck",
      note="a gap is written on its first node only, as if its other node were held: decks keep it held; stiffnesses of PGAP are not judged"),
 dict(id="C25", title="No freedom that the translation adds to a node is left loose",
      statement="Every freedom that the Code_Aster study gives to a node of a static or modal analysis (also those that appear only because "
      "some analysis constrains or loads them, or because a direct matrix needs a discrete element there) is, in every single analysis, stiffened by "
      "an element or matrix of the deck, or held, linked or loaded by that analysis: whatever the other analyses use, no analysis becomes "
      "singular by the translation. No condition names a freedom that the model lacks.",
      over=["inputs"], quant="every mixture of elements and conditions, over all freedoms of all nodes in all analyses",
      why=WHY, files=["Abstract/Model.cpp", "Abstract/Analysis.cpp", "Aster/AsterWriter.cpp"],
      mechanism=[("freedoms added for conditions", "Abstract/Model.cpp generateDiscrets"), ("freedoms added for matrices", "Abstract/Model.cpp replaceDirectMatrices"),
                 ("conditions of an analysis", "Abstract/Analysis.cpp findBoundaryDOFS, Abstract/Model.cpp finish")],
      observe=OUT, technique="runtime monitoring: freedoms of the written model against those stiffened, held, linked and loaded in each analysis",
      note="springs of solids have all their stiffnesses (Nastran holds the rest by AUTOSPC); nodes without any element are a known finding"),
 dict(id="C28", title="Frequency responses keep their excitation, frequencies, modes and damping",
      statement="For every SOL 108/111 subcase, the study written applies at each frequency the complex nodal forces its DLOAD/RLOAD1/RLOAD2, "
      "DAREA or static loads, TABLED1 tables, phases and scale factors give; it computes exactly the frequencies of its FREQ/FREQ1 set; and a modal "
      "response uses the number of modes of its METHOD and, at any frequency, the damping its TABDMP1 gives as CRIT, G or Q. What one subcase "
      "scales or selects does not change the others.",
      over=["inputs"], quant="every frequency response deck, over all frequencies of its lists",
      why=WHY, files=["Nastran/NastranParser.cpp", "Abstract/Loading.cpp", "Abstract/Value.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Systus/SystusDat.cpp"],
      mechanism=[("excitations", "Abstract/Loading.cpp DynamicExcitation"), ("cards", "Nastran/NastranParser.cpp parseRLOAD1, parseDLOAD, parseFREQ1, parseTABDMP1"),
                 ("responses", "Aster/AsterWriter.cpp LINEAR_DYNA_MODAL_FREQ"), ("harmonic DAT", "Systus/SystusDat.cpp")],
      observe=OUT, technique="runtime monitoring: reference model of the excitation evaluated at every frequency against the study written",
      note="DELAY, TP tables and several FREQ cards of a set are known findings; Systus: one excitation, no phase, regular frequencies, constant damping"),
 dict(id="C17", title="Springs, dampers, concentrated masses and direct matrices keep their matrices",
      statement="The stiffness, damping and mass matrices that the CELAS1/2/4, CDAMP1, CBUSH, CMASS2, CONM1, CONM2 and K2GG/B2GG/M2GG (DMIG) "
      "of a deck add up to, between any freedoms of any nodes (coupled components, grounded ends, offsets and products of inertia, WTMASS), "
      "are those that the discrete elements of the written study add up to. Nothing else is held or linked, and identifiers of properties "
      "and elements, which are separate numberings, never mix.",
      over=["inputs"], quant="every set of discrete elements and matrices, over all freedoms",
      why=WHY, files=["Abstract/Element.cpp", "Abstract/Element.h", "Abstract/Model.cpp", "Nastran/NastranParser_geometry.cpp", "Nastran/NastranParser.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("scalar springs and matrices per cell", "Abstract/Element.cpp ScalarSpring, DiscreteSegment, NodalMass"), ("direct matrices cut into discretes", "Abstract/Model.cpp replaceDirectMatrices"),
                 ("cards", "Nastran/NastranParser_geometry.cpp parseCELAS1, parseCONM1, parseCBUSH")],
      observe=OUT, technique="runtime monitoring: matrices assembled from the written study against those assembled from the deck",
      note="structural damping GE is a known finding; Systus: no CONM1, offsets, products of inertia and some dampers, as VEGA reports"),
 dict(id="C04", title="A run touches only the files of its own study",
      statement="Whatever the input, the options, and the arrangement of the input, output and current directories, a run of vega creates, "
      "replaces or removes only the files of its own study in the output directory (its study files, the copies of its input, and with -R "
      "the results of an earlier run of the same study): input files, other studies with close names and every other file stay as they were, "
      "and the solver is run in the output directory.",
      over=["inputs", "histories"], quant="every input, option list and directory layout, with any other files lying there",
      why=WHY, files=["Commandline/VegaCommandLine.cpp", "Aster/AsterRunner.cpp", "Systus/SystusRunner.cpp", "Nastran/NastranRunner.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
      mechanism=[("cleaning before a run", "AsterRunner.cpp, SystusRunner.cpp execSolver, NastranRunner.cpp"), ("copies of the input", "AsterWriter.cpp writeExport"), ("output directory", "VegaCommandLine.cpp")],
      observe=["the whole directory tree before and after the run"], technique="runtime monitoring: frame-condition monitor (snapshots of the tree around each run)",
      note="held on the trees generated; paths outside the tree (system directories) are not watched; the solver is a stand-in"),
 dict(id="C05", title="The meaning of a deck does not depend on its layout",
      statement="Two decks with the same cards and fields are translated to the same model and the same analyses, however they are "
      "laid out: small-field, large-field or free format or any mixture, any legal continuation style, tabs, upper or lower case, "
      "trailing blanks, comments and blank lines anywhere, DOS or Unix line ends, lists written with THRU or spelled out, cards moved "
      "to INCLUDE files, any text after ENDDATA.",
      over=["inputs", "programs"], quant="every deck and every legal layout of it",
      why=WHY, files=["Nastran/NastranTokenizer.cpp", "Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Abstract/SolverInterfaces.cpp"],
      mechanism=[("field splitting and continuations", "Nastran/NastranTokenizer.cpp nextLine/splitFixedFormat/splitFreeFormat"), ("INCLUDE and ENDDATA", "Nastran/NastranParser.cpp parseBULKSection")],
      observe=OUT, technique="runtime monitoring: metamorphic trace comparison between layouts of one deck, under sanitizers",
      note="held on the layouts generated; a trimmed fixed-format row before a + continuation is a recorded finding pinned by existing tests"),
]
