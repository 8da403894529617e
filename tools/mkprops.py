#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})


DECKS = "every well-formed Nastran deck built from the supported cards"
WHY = ("The quantifier is over all decks; the repository's tests translate a few dozen fixed decks and mostly assert only that "
       "translation finishes, or compare a handful of object counts. ")

p("C01", "Bulk data layout never changes what a deck means",
  "A Nastran bulk data card means the same whether it is written in small-field, large-field or free format, with continuation "
  "lines, in upper or lower case, with comments, blank lines or trailing blanks around it: the translation to every target is the same. "
  "Every Nastran number notation (implicit exponent, D exponent, missing leading or trailing digits, explicit plus sign) denotes its value, "
  "and an integer list written with THRU and BY denotes exactly its members.",
  ["inputs"], DECKS + ", every per-card choice of layout and number spelling",
  WHY + "Tokenizer tests cover about twenty fixed lines.",
  ["Nastran/NastranTokenizer.cpp", "Nastran/NastranTokenizer.h", "Nastran/NastranParser.cpp"],
  [("line splitting into fields", "NastranTokenizer::splitFixedFormat/splitFreeFormat"),
   ("typed field access", "NastranTokenizer::nextInt/nextDouble/nextInts/nextString")],
  ["generated Aster, Systus and Nastran files", "the tokenizer's public field accessors"])

p("C02", "The order of bulk data cards does not matter",
  "Permuting the cards of the bulk data section of a Nastran deck yields a translation that describes the same model: the same nodes, elements, "
  "sections, materials, supports, constraints, loads and analyses. Cards may refer to objects defined later in the file.",
  ["inputs", "histories"], DECKS + " and every permutation of its bulk data section",
  WHY + "No test permutes a deck; forward references are reached only as far as the sample decks happen to contain them.",
  ["Nastran/NastranParser.cpp", "Abstract/Mesh.cpp", "Abstract/Model.cpp", "Abstract/Reference.h"],
  [("deferred references", "Reference<T>, Mesh::findOrReserveNode, Model::finish"),
   ("coordinate-system positions reserved before definition", "CoordinateSystemStorage")],
  ["generated Aster, Systus and Nastran files"])

p("C03", "Every grid point lands at its true position in every output",
  "Each grid point of a Nastran deck appears exactly once in the mesh written for Code_Aster, Systus or Nastran, at the position its coordinates denote in its "
  "reference coordinate system, whatever chain of rectangular, cylindrical, spherical or grid-defined systems leads to it and whatever default the deck sets.",
  ["inputs"], DECKS + ": any nesting of coordinate systems, any identifiers, any definition order",
  WHY + "Unit tests check a few fixed coordinate systems and points.",
  ["Nastran/NastranParser_geometry.cpp", "Abstract/CoordinateSystem.cpp", "Abstract/Mesh.cpp", "Abstract/Model.cpp", "Aster/MedWriter.cpp",
   "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("local to global conversion", "CoordinateSystem::positionToGlobal, Mesh::finish"),
   ("node writing", "MedWriter::writeMED, SystusWriter::writeNodes, NastranWriter::writeNodes")],
  ["NODES of .med and .ASC files, GRID cards of the Nastran output"])

p("C04", "Every element is written once, with its type, nodes and property",
  "Each finite element of a Nastran deck appears exactly once in the mesh written for Code_Aster, Systus or Nastran, with the same topology, its nodes in the order the target "
  "format prescribes for that topology (so that its orientation and its mid-side nodes are right), and it belongs to the part that carries its property; no element is invented. "
  "User-defined sets of grids or elements that are carried over contain exactly their members.",
  ["inputs"], DECKS + " with any mix of 0D, 1D, 2D and 3D elements, shared and unshared properties",
  WHY + "Tests check the connectivity permutation of two element types on fixed cells.",
  ["Nastran/NastranParser_geometry.cpp", "Abstract/Mesh.cpp", "Abstract/MeshComponents.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp",
   "Nastran/NastranWriter.cpp"],
  [("connectivity permutations", "MedWriter.h / NastranParser nastran2med tables, NastranWriter med2nastran tables, SystusWriter med2systus tables"),
   ("group of a property", "Mesh::findOrCreateCellGroup, ElementSet::assignCellGroup")],
  ["cells and families of .med, ELEMENTS and GROUPS of .ASC, element cards of the Nastran output"])

p("C05", "Section, shell and material data keep their values",
  "For every structural element, the output assigns the cross-section (area, inertias, torsion constant, shape dimensions), shell thickness, composite lay-up and elastic material "
  "constants, density and damping that the deck gives for its property and material, whatever combination of elastic constants the deck uses.",
  ["inputs"], DECKS + ": any bar, beam, rod, shell, composite and solid property, any admissible material constants",
  WHY + "Values written in output files are not compared by the tests except in a few reference decks.",
  ["Nastran/NastranParser.cpp", "Abstract/Element.cpp", "Abstract/Material.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("beam section constants", "Beam, RectangularSectionBeam, CircularSectionBeam, IBeam"),
   ("elastic constants", "ElasticNature"), ("writing", "AsterWriter::writeAffeCaraElem, SystusWriter::writeMaterials, NastranWriter::writeMaterials")],
  ["AFFE_CARA_ELEM / DEFI_MATERIAU, Systus MATERIALS, Nastran property and material cards"])

p("C06", "Beam and shell orientations and offsets are preserved",
  "The local axes of every bar or beam in the output are those its orientation vector or orientation node defines in the deck, and a shell with a mid-surface offset keeps that offset, "
  "with the sign its normal implies; elements that differ only in orientation or offset are kept apart.",
  ["inputs"], DECKS + " with arbitrary orientation vectors, orientation nodes and offsets, any number of elements per property",
  WHY + "Tests contain a few beams with one orientation each.",
  ["Nastran/NastranParser_geometry.cpp", "Abstract/CoordinateSystem.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("orientation", "OrientationCoordinateSystem, Mesh::add(cell, orientation)"), ("offset splitting", "Model::splitElementsByCellOffsets")],
  ["ORIENTATION and COQUE of AFFE_CARA_ELEM, Systus element orientation data, Nastran element cards"])

p("C07", "Each analysis carries exactly the supports its deck selects",
  "In the output, the set of displacements that are prescribed in an analysis, with their values and directions, is exactly the one selected by the deck for that analysis: constraint sets, their unions, "
  "enforced displacements of the load set and permanent constraints of grid points, in each grid's displacement system. Removing redundant statements never frees or fixes a degree of freedom.",
  ["inputs", "histories"], DECKS + " with any overlap of constraint cards, combinations and cases",
  WHY + "Tests check a few single-set decks.",
  ["Nastran/NastranParser.cpp", "Abstract/Constraint.cpp", "Abstract/Model.cpp", "Abstract/Analysis.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("spc reading", "NastranParser::parseSPC*/parseGRID"), ("simplifications", "Model::removeRedundantSpcs, Model::removeConstrainedImposed, Model::emulateLocalDisplacementConstraint")],
  ["AFFE_CHAR_MECA blocks used by each RESU, Systus node constraints per case, SPC cards and case control"])

p("C08", "Multipoint and rigid constraints impose the same kinematics",
  "The space of displacement fields that satisfies the linear relations written for an analysis (multipoint constraints, rigid bars and bodies, interpolation elements) is the space the deck's cards define. "
  "A rigid connection makes its dependent freedoms follow the rigid motion of the reference point, an interpolation element makes its reference freedoms the weighted mean motion of the others.",
  ["inputs"], DECKS + " with MPC, RBAR, RBAR1, RBE1, RBE2, RBE3 on arbitrary node positions and freedom subsets",
  WHY + "Tests assert object counts on a few decks.",
  ["Nastran/NastranParser.cpp", "Abstract/Constraint.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("rigid to linear relations", "RigidConstraint/QuasiRigidConstraint::emulateWithMPCs"), ("writing", "AsterWriter::writeLMPC/writeRBE3/writeQuasiRigidConstraint")],
  ["LIAISON_* of AFFE_CHAR_MECA, Systus rigid elements and materials, MPC/RBE cards"])

p("C09", "Applied loads keep their resultants in every analysis",
  "For each analysis, the output applies to every node, element face or body the force, moment, pressure, acceleration and rotation that the deck's selected load set applies there, in the basic frame, "
  "including scale factors, load combinations at any depth, local load directions, follower directions given by node pairs, and pressures on chosen faces; no load is dropped, duplicated or applied in another case.",
  ["inputs"], DECKS + " with any composition of force, moment, pressure, gravity, rotation and combination cards",
  WHY + "Tests check a few load cards for object counts.",
  ["Nastran/NastranParser.cpp", "Abstract/Loading.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("combination", "Model::replaceCombinedLoadSets, Loading::scale"), ("nodal forces", "NodalForce*, StaticPressure, ForceSurface"),
   ("writing", "AsterWriter::writeNodalForce/writeForceSurface/writeGravity, SystusWriter loads")],
  ["AFFE_CHAR_MECA and EXCIT, Systus LOADS/VECTORS, Nastran load cards and case control"])

p("C10", "Analyses and cases are translated one for one",
  "Every subcase of the deck becomes exactly one analysis of the matching type in the output, under the same identity, with the load set, supports, mode-search range, frequency list and damping it selects; "
  "selections above the first subcase are inherited by the subcases that do not override them.",
  ["inputs", "configurations"], "every case control section over the supported solution types, and the cards it selects",
  WHY + "Tests run a few single-case decks per solution type.",
  ["Nastran/NastranParser.cpp", "Abstract/Analysis.cpp", "Abstract/Model.cpp", "Abstract/Objective.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("case control", "NastranParser::parseExecutiveSection/addAnalysis"), ("analysis writing", "AsterWriter::writeAnalyses")],
  ["RESU concepts of the .comm, Systus analysis files, case control of the Nastran output"])

p("C11", "Translating Nastran to Nastran preserves the model",
  "A deck translated from Nastran to Nastran, within what the writer supports, keeps the identifiers of its source: same node, element, property, material, constraint-set and load-set identifiers, elements on the same nodes. "
  "In both output dialects, translating that output again gives the same deck.",
  ["inputs", "histories"], DECKS + " within the writer's vocabulary, and one more translation of its output",
  WHY + "Tests only check that the Nastran output of a few decks can be produced.",
  ["Nastran/NastranWriter.cpp", "Nastran/NastranParser.cpp"],
  [("writer", "NastranWriter::writeModel and write* functions")],
  ["the written _vg.nas file"])

p("C12", "Any input file ends in a documented way",
  "Whatever bytes the input file contains, the translator ends by itself with one of its documented exit codes: no crash by signal, no memory error, no undefined behaviour, no hang, no unbounded memory. "
  "When it reports success the requested output files exist and are complete.",
  ["inputs", "fault_sequences"], "every input file: mutated, truncated, spliced and reordered decks, result files and comm options",
  "Tests only contain well-formed decks and a handful of expected parse errors.",
  ["Nastran/NastranTokenizer.cpp", "Nastran/NastranParser.cpp", "Commandline/VegaCommandLine.cpp", "Commandline/vegamain.cpp", "Abstract/Model.cpp"],
  [("error handling", "Parser::handleParsingError, VegaCommandLine::process"), ("exit codes", "VegaCommandLine::ExitCode")],
  ["exit status and files of vegapp, sanitizer reports"])

p("C13", "Translation modes differ only in how errors are treated",
  "On a deck that translates in strict mode, the best-effort and mesh-at-least modes give the same model. On a deck with a card that cannot be read, strict mode fails with the parsing exit code and names the card, best effort drops that card, or only what follows "
  "its unreadable field, and keeps the rest of the model, and mesh-at-least delivers the complete mesh: every other grid and every element that does not need the broken card.",
  ["inputs", "configurations", "fault_sequences"], "every deck, every position and kind of a broken card, every mode and target",
  "Tests run each mode on one or two decks.",
  ["Nastran/NastranParser.cpp", "Abstract/SolverInterfaces.cpp", "Abstract/Model.cpp", "Commandline/VegaCommandLine.cpp"],
  [("mode handling", "Parser::handleParsingError/handleParsingWarning, Model::finish")],
  ["exit code, message and output files per mode"])

p("C14", "Translation is deterministic and confined to its output directory",
  "Translating the same deck twice, from any directory, under any name path or environment, produces the same files (apart from a date stamp and paths), and only creates files below the requested output directory, leaving the input files as they were. "
  "Includes of other files are equivalent to having their text in place.",
  ["inputs", "configurations"], "every deck, working directory, environment, output directory and include structure",
  "Tests never compare two runs; memory-layout-dependent order (pointer-keyed sets, hash order) cannot be seen in one run.",
  ["Commandline/VegaCommandLine.cpp", "Abstract/Model.cpp", "Abstract/Object.h", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranParser.cpp"],
  [("ordered containers", "std::map/std::set of shared_ptr in Model containers"), ("output path computation", "VegaCommandLine::getOutputFileName"), ("include", "NastranParser INCLUDE")],
  ["all files written"])

p("C15", "Every output is self-consistent and loadable",
  "In every generated command file each concept is defined before use, once, under a legal name, and each group, node or element it names exists in the mesh file and is not empty; every Systus or Nastran file refers only to nodes, elements, groups, "
  "materials, lists, vectors and sets it defines, and its declared counts are right.",
  ["inputs"], DECKS + ", every target",
  "Tests do not run the target solvers and do not cross-check the files.",
  ["Aster/AsterWriter.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp", "Abstract/Model.cpp"],
  [("writers", "AsterWriter::writeComm, MedWriter::writeMED, SystusWriter::writeAsc, NastranWriter::writeModel"), ("removing ineffective objects", "Model::removeIneffectives")],
  ["all files written"])

p("C16", "Coordinate systems are rigid frames and convert vectors both ways",
  "For every coordinate system built from three non-collinear points, alone or defined in a Cartesian one, the axes are orthonormal and right-handed with the origin and axes its definition points prescribe, positions are placed rigidly, "
  "a vector taken to the global frame and back is unchanged, and the directions of a cylindrical system are those at the given point. The Euler angles of a frame give back that frame.",
  ["inputs"], "every rectangular, cylindrical or spherical system, alone or nested in a Cartesian system, every point and vector",
  "Unit tests check five fixed systems.",
  ["Abstract/CoordinateSystem.cpp", "Abstract/CoordinateSystem.h", "Abstract/Value.cpp"],
  [("conversions", "CoordinateSystem::positionToGlobal/vectorToGlobal/vectorToLocal and updateLocalBase")],
  ["the conversions' results in-process"])

p("C17", "The mesh stays consistent under any sequence of operations",
  "After any sequence of node, cell and group creations, reservations, look-ups and removals, the mesh returns for every identifier exactly what was stored: ids map to unique positions and back, iteration visits each item once, groups contain exactly the members put in and not removed, "
  "and cell connectivity and counts agree with a reference model.",
  ["histories"], "every sequence of mesh and group operations",
  "Unit tests run a few fixed short sequences.",
  ["Abstract/Mesh.cpp", "Abstract/MeshComponents.cpp", "Abstract/Mesh.h"],
  [("storages", "NodeStorage, CellStorage, CellContainer, NodeGroup, CellGroup")],
  ["public interface of the mesh in-process"])

p("C18", "Element faces and skin close every solid",
  "The faces of a solid element cover its boundary: each face's nodes are nodes of the element, every edge belongs to exactly two faces walked in opposite directions, mid-side nodes lie on their edges, and a face looked up by its nodes is the one containing them. "
  "Faces loaded by pressure become boundary elements whose normal is outward.",
  ["inputs"], "every 2D/3D element type, any node numbering and geometry, any pair of face-selecting nodes",
  "Unit tests check one HEXA8.",
  ["Abstract/MeshComponents.cpp", "Abstract/Mesh.cpp", "Abstract/Model.cpp"],
  [("face tables", "CellType static face lists, Cell::faceByIds, Cell::faceIds")],
  ["face node lists in-process, skin cells of the .med file"])

p("C19", "Degree-of-freedom sets and matrices obey their algebra",
  "Sets of degrees of freedom behave as sets (union, difference, membership, order, Nastran code round-trip), and matrices over them are what their stored entries say: symmetric or not as declared, with sums, transposes, component lists and emptiness consistent.",
  ["inputs", "histories"], "every set of degrees of freedom, every sequence of matrix operations",
  "Unit tests check a few fixed sets and matrices.",
  ["Abstract/Dof.cpp", "Abstract/Dof.h"],
  [("algebra", "DOFS operators, DOFMatrix::addComponent/findComponent/transposed")],
  ["public interface in-process"])

p("C20", "Lumped stiffness, mass and damping are preserved",
  "The stiffness, damping and mass matrices that the output's lumped elements assemble to (springs, bushings, dampers, concentrated masses, direct matrix input), expressed on the basic displacements of the original nodes, equal those of the deck, including grounded ends, local directions and coupling terms.",
  ["inputs"], DECKS + " with CELAS, CBUSH, CDAMP, CVISC, CONM, CMASS and DMIG data between arbitrary freedoms",
  WHY + "Tests check counts on a few decks.",
  ["Nastran/NastranParser_geometry.cpp", "Nastran/NastranParser.cpp", "Abstract/Element.cpp", "Abstract/Model.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"],
  [("discrete elements", "DiscretePoint, DiscreteSegment, ScalarSpring, StructuralSegment, NodalMass, MatrixElement"), ("rewriting", "Model::replaceDirectMatrices, Model::addVirtualDiscrets")],
  ["DISCRET of AFFE_CARA_ELEM, Systus spring and mass data, Nastran lumped cards"])

p("C21", "Reference results become assertions with the same values",
  "When a result file accompanies a deck (F06 tables in SORT1 for Aster and Systus; CSV for Aster), every value in it that designates a node, component and case of the model becomes exactly one assertion in the output, on that node, component and case, with that value and the requested tolerance. Values of nodes, subcases or freedoms the model does not have, of frequencies outside the asked range, and kinds of result the output format cannot assert are left out; Systus may refuse or dismiss kinds it does not support, with a message.",
  ["inputs"], "every result table in the supported formats over the nodes and cases of a deck",
  "Tests use a few fixed result files.",
  ["ResultReaders/CSVResultReader.cpp", "ResultReaders/F06Parser.cpp", "Abstract/Objective.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
  [("readers", "CSVResultReader::add_assertions, F06Parser::add_assertions")],
  ["TEST_RESU of the .comm"])

p("C22", "Tabulated and dynamic data keep their values",
  "Function tables, frequency lists, mode ranges, modal damping tables and dynamic excitations (amplitude, delay, phase) selected by an analysis appear in the output with the abscissas and ordinates the deck gives, scaled as the deck says and no more.",
  ["inputs"], "every table and dynamic selection of the supported frequency-response and modal solutions",
  WHY + "Tests contain one or two dynamic decks.",
  ["Nastran/NastranParser.cpp", "Abstract/Value.cpp", "Abstract/Objective.cpp", "Abstract/Loading.cpp", "Aster/AsterWriter.cpp", "Systus/SystusWriter.cpp"],
  [("tables", "FunctionTable, StepRange, DynamicExcitation")],
  ["DEFI_FONCTION / DEFI_LIST_REEL / EXCIT of the .comm"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
