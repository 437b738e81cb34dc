#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    d = {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": ["pyconform/" + f for f in files],
                    "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop("C01", "Written data equal the definition, converted and laid out as specified",
     "For every input dataset and output specification that is accepted, each value written for an output variable equals the result of evaluating its definition on the input values with the same named coordinates, converted from the units of the definition to the output units and stored with the output dimensions in their specified order and the output data type. Missing input values make exactly the dependent output values missing. A specification whose definition can not be converted to the output units or mapped onto the output dimensions is refused with an error, never written wrongly.",
     ["inputs", "programs", "configurations"],
     "all input datasets (shapes, data types, units, missing values, packed or stored otherwise), all definitions built from variables, constants, arithmetic, slices and functions, all output dimension orders, units and data types",
     "The tests run three fixed datasets of a few variables and mostly check that output files exist; they never compare written values against an independent evaluation for arbitrary shapes, orders, units and masks.",
     ["dataflow.py", "flownodes.py", "functions.py", "physarray.py", "datasets.py"],
     [("definition graph", "dataflow.DataFlow._construct_flow_"), ("dimension mapping", "dataflow.DataFlow._compute_dimension_maps_, flownodes.MapNode"),
      ("unit conversion and transposition", "flownodes.ValidateNode.__getitem__"), ("writing", "flownodes.WriteNode.execute")],
     ["the NetCDF files written by DataFlow.execute"])
prop("C02", "Output does not depend on how it is chunked",
     "Executing a data flow with any chunk sizes over any output dimensions that may be chunked writes files whose variables, values, missing values and attributes are the same as those written without chunking, whatever mixture of inverted coordinates, shared dimensions and variables with fewer dimensions the files contain. Every element of every variable is written. Chunks over a dimension that some function registered as needed as a whole, also if it is renamed afterwards, are refused instead.",
     ["inputs", "configurations"],
     "all datasets and definitions without reductions over chunked dimensions, all assignments of chunk sizes (1 to beyond the dimension size) to output dimensions",
     "Tests use one or two chunk dictionaries on one dataset and check file existence; the interaction of chunk remainders, inversion, several dimensions and differently shaped variables is not sampled.",
     ["flownodes.py", "dataflow.py"],
     [("chunk iteration", "flownodes.WriteNode._chunk_iter_"), ("inverted chunks", "flownodes.WriteNode._invert_dims_"), ("bookkeeping of written chunks", "flownodes.WriteNode.execute")],
     ["output files"])
prop("C03", "Parallel execution writes each file exactly once, as serial execution does",
     "For any number of parallel ranks, the output files are divided so that every file is written by exactly one rank, and the files are identical to those of a serial run. No rank writes a file that is not its own, and ranks may finish in any order.",
     ["schedules", "configurations"],
     "all rank counts, all sets of output files with any sizes, all orders in which the ranks execute",
     "The tests run serially or with one MPI process only.",
     ["dataflow.py"], [("partition over ranks", "dataflow.DataFlow.execute"), ("file weights", "dataflow.DataFlow._compute_file_sizes")],
     ["output files per rank"])
prop("C04", "Output file structure is the one that was specified",
     "Every output file contains exactly the variables asked for: its own variable, its metadata variables, every other variable without a file whose dimensions are all dimensions of those, and every bounds or coordinates variable they reference, except hidden ones whose name starts with an underscore. Each has the specified data type, dimensions, attributes and fill value; the file has the specified format, global attributes and compression, and each dimension has the size and the limited or unlimited kind of the input dimension (or of the data) it is mapped to. History attributes appear only on request.",
     ["inputs", "configurations"],
     "all output specifications: formats, data types, attributes, metadata and bounds references, hidden variables, compression levels and overrides",
     "Tests inspect the descriptors of two fixed specifications and a handful of written headers.",
     ["datasets.py", "flownodes.py", "dataflow.py"],
     [("specification parsing", "datasets.OutputDatasetDesc.__init__"), ("header writing", "flownodes.WriteNode._open_")],
     ["headers of the output files"])
prop("C05", "Units are converted automatically or the conversion is refused",
     "Whenever the units of a definition differ from the units of the output variable, the written values are the same physical quantities expressed in the output units: also with offsets, and for times, with another reference date or unit of the same calendar. Values are never written under units they do not have: inconvertible units or different calendars are refused with an error. An output variable whose units attribute leaves the unit or the reference date unspecified inherits it from its definition and says so in its attributes; one without a units attribute is written unconverted. Integers are written as the converted integers and data given in the specification as they are, whatever datatype is asked for; a datatype that can not hold them, or that the file format does not have, is refused.",
     ["inputs", "configurations"],
     "all pairs of input and output units, time references and calendars, specified or inherited",
     "Tests use a few pairs of units and accept any result of the third party library.",
     ["flownodes.py", "physarray.py", "datasets.py"],
     [("inheriting", "flownodes.ValidateNode.__init__"), ("conversion", "flownodes.ValidateNode.__getitem__, physarray.PhysArray.convert"), ("units parsing", "datasets.VariableDesc.units, refdatetime, calendar, cfunits")],
     ["values and units attributes in the output files"])
prop("C06", "Coordinates and data are reversed together to reach the asked direction",
     "When a one-dimensional coordinate variable (one with an axis attribute) asks for an increasing or decreasing direction, the written coordinate is strictly monotonic in that direction and every variable of the file on that dimension is reversed along with it, so that each data value stays at its coordinate. Variables on other dimensions, and files whose coordinates already run in the asked direction, are not changed. An invalid direction, a coordinate without a direction, or two coordinates of one dimension (longer than one) that can not both have theirs, are refused.",
     ["inputs", "configurations"],
     "all coordinate values, directions asked for, sets of variables on the dimension (bounds, data with other dimensions), chunk sizes",
     "Tests check the private inversion of index ranges and one file; not the association of data with coordinates.",
     ["flownodes.py"], [("direction detection", "flownodes.WriteNode._open_, _direction_"), ("reversed reading", "flownodes.WriteNode._invert_dims_")],
     ["output files"])
prop("C07", "Fluxes change sign exactly when the positive direction changes",
     "A variable written with a positive attribute of up or down holds the values of its definition, with the opposite sign exactly when the definition's own direction (from the input attribute, or from up and down in the definition) is the other one. This holds in combination with unit conversion, transposition and arithmetic between quantities of the same, opposite or no direction.",
     ["inputs", "programs"],
     "all directions of inputs, definitions and outputs, combined with unit conversions, transpositions, arithmetic",
     "Tests flip small unitless arrays; combinations with conversion and with operands shared between variables are not covered.",
     ["flownodes.py", "physarray.py", "functions.py"],
     [("flip on output", "flownodes.ValidateNode.__getitem__"), ("matching in arithmetic", "physarray.PhysArray._match_positive_"), ("functions up, down", "functions.py")],
     ["output values"])
prop("C08", "Out-of-range values are masked and reported, others are left alone",
     "For an output variable with a minimum or maximum valid value (zero included), exactly the values below the minimum or above the maximum are written as missing and a validation warning is given if and only if there are such values; values equal to a limit and all other values are written unchanged. Acceptable bounds on the mean absolute value cause a warning exactly when they are crossed and never change data.",
     ["inputs", "configurations"],
     "all data, masks, limits of either sign and zero, units conversions before validation, chunk sizes",
     "Tests use two arrays with one minimum and one maximum and check only that a warning was issued.",
     ["flownodes.py"], [("range checks", "flownodes.ValidateNode.__getitem__")], ["output values and warnings"])
prop("C09", "Arithmetic on physical arrays follows named dimensions and units",
     "Adding, subtracting, multiplying, dividing and raising arrays to powers gives, at every combination of coordinates of the named dimensions of either operand, the operation on the operands' values there: sums in the units of the left operand after converting the right one, products and quotients in the product or quotient units, and the right operand with its sign changed when the positive directions are opposite. Elements that are missing in an operand, or undefined, are missing. Operands with inconvertible units or conflicting dimension sizes are refused.",
     ["inputs", "programs"],
     "all pairs of arrays over any named dimensions in any order, any units, masks, types and directions; in place and not; chained",
     "Tests enumerate a few unitless and length pairs on fixed 2x2 arrays.",
     ["physarray.py"], [("broadcasting by name", "physarray.PhysArray._broadcast_"), ("units", "physarray.PhysArray._add_sub_init_, _units_op_"), ("direction", "physarray.PhysArray._match_positive_")],
     ["result values, mask, units, dimensions, positive"])
prop("C10", "Operations leave their operands unchanged",
     "No arithmetic operation, conversion, transposition, indexing or reduction changes the data, mask, shape, dimensions, units, direction or name of any array other than the target of an in-place operation, and repeating an operation on the same operands gives the same result.",
     ["histories", "inputs"],
     "all histories of operations over a set of arrays whose results are operands again",
     "Tests use every operand once.",
     ["physarray.py"], [("views and copies", "physarray.PhysArray._broadcast_, _match_positive_, convert, transpose")],
     ["operands after operations"])
prop("C11", "Array structure follows dimension names",
     "Transposing, indexing by position or by dimension name, assigning, converting units, taking means and sums over named dimensions and changing the positive direction keep each value attached to its named coordinates, with the right dimensions, mask, units and direction, in every sequence. Impossible requests (unknown, repeated, missing or too many dimensions or indices, indices out of range, inconvertible or unknown units, other directions) are refused and change nothing.",
     ["histories", "inputs"],
     "all histories of structural operations on arrays of any rank, shape, order, memory layout, mask and units",
     "Tests sample single operations on fixed 2-dimensional arrays.",
     ["physarray.py", "indexing.py"], [("transpose", "physarray.PhysArray.transpose"), ("indexing", "physarray.PhysArray.__getitem__, indexing.align_index"), ("assignment", "physarray.PhysArray.__setitem__"), ("reductions", "physarray.PhysArray.mean, sum")],
     ["array contents"])
prop("C12", "Two consecutive indexings equal their joined indexing",
     "For every array shape and any two index expressions, indexing an array once with the joined expression gives the same shape and values as indexing it with the first expression and then with the second; the joined expression is refused with an index error exactly when one of the two steps is out of range or has too many indices.",
     ["inputs"],
     "all shapes and pairs of index expressions of integers, slices with any bounds and steps, and ellipses",
     "Tests compare some slices of one-dimensional arrays.",
     ["indexing.py"], [("join", "indexing.join, index_tuple, align_index")], ["joined index"])
prop("C13", "A part of a node's data is that part of its whole data",
     "Asking any node of a data flow (reading, evaluating, mapping dimensions, validating) for a part of its data, by dimension name (or by position, for nodes that read, hold or map data), gives the same values, units and dimensions as asking for everything and taking the part, unless the node reduces over the dimension. Asking for no data gives an empty array with the units, dimensions and direction of the full data.",
     ["inputs", "programs"],
     "all graphs of read, data, function, map and validate nodes, all index expressions by position and name",
     "Tests use slices of fixed small vectors.",
     ["flownodes.py", "indexing.py", "functions.py"], [("reading parts", "flownodes.ReadNode.__getitem__"), ("mapping indices", "flownodes.MapNode.__getitem__"), ("evaluation", "flownodes.EvalNode.__getitem__")],
     ["arrays returned by nodes"])
prop("C14", "Definitions are parsed according to the documented grammar",
     "Every well-formed definition is parsed into the expression that operator precedence (powers before signs before products before sums before comparisons), grouping from the left, parentheses, function arguments, keywords, strings and index lists give it, regardless of white space and redundant parentheses; constants are evaluated with their types.",
     ["inputs", "programs"], "all well-formed definition texts",
     "Tests parse some dozens of fixed strings.",
     ["parsing.py"], [("grammar and precedence", "parsing.py")], ["parse result"])
prop("C15", "Malformed definitions are rejected and leave no trace",
     "Every text that is not a well-formed definition is rejected with an error when it is parsed, and never yields an expression. Rejected or accepted texts do not influence how any later definition is parsed.",
     ["inputs", "histories"], "all texts, and all sequences of texts parsed in one process",
     "Tests try a few malformed strings, each alone.",
     ["parsing.py"], [("error handling", "parsing.p_error, t_error")], ["exceptions of the parser"])

prop("C16", "The built-in functions do what their definitions say",
     "Each function that can be used in definitions gives, for every argument it accepts, the result its documentation states: means, sums, minima and maxima over the named dimensions, square roots with the root of the units, limits applied to the values beyond them, changed units, dimension names and directions, elementary functions of values converted to the units they need. Missing values stay missing, dimensions and units follow the values, arguments are not changed, constants are accepted in place of arrays, and arguments that make no sense (unknown dimensions, inconvertible units, wrong types or numbers of arguments) are refused.",
     ["inputs", "programs"],
     "all built-in functions, arguments of any rank, order, units, masks and types, constants, nested calls",
     "Tests call each function with one or two small arrays.",
     ["functions.py", "physarray.py"], [("function classes", "functions.Function and subclasses"), ("lookup", "functions.find_function, find_operator")],
     ["returned arrays, their units, dimensions and masks"])
prop("C17", "Inconsistent datasets are refused, consistent ones described as they are",
     "A description of input files lists exactly the dimensions (size, unlimited or not), variables (type, dimensions, attributes) and files that are there, and which file holds which variable. Input files that disagree on a dimension or on the type or dimensions of a common variable are refused, as are output specifications that are incomplete or contradict themselves: missing dimensions or file names, two owners of a file, references to absent bounds or coordinates, data that do not fit their dimensions, data types that the file format has not, invalid formats or compression. All others are accepted.",
     ["inputs", "configurations"],
     "all sets of input files and all output specifications, with any number of defects of any of these kinds",
     "Tests try each error once in a minimal specification.",
     ["datasets.py"], [("consistency", "datasets.DimensionDesc.unique, VariableDesc.unique, FileDesc.unique"), ("input", "datasets.InputDatasetDesc"), ("output", "datasets.OutputDatasetDesc")],
     ["descriptors and exceptions"])
prop("C18", "A file depends on its own definitions, not on anything else that is done",
     "What is written to an output file is determined by the input data and the definitions of the variables in that file (including those they refer to). It does not depend on the order of variables in the specification, the order of input files, which other output files are asked for, what other flows have been built or executed before in the process, or whether the flow was executed before. Input files and specifications are never changed.",
     ["histories", "inputs"],
     "all histories of flows built and executed over the same inputs, with permuted and reduced specifications",
     "Tests build one flow and execute it once.",
     ["dataflow.py", "flownodes.py", "datasets.py", "physarray.py", "functions.py"],
     [("shared nodes and arrays", "dataflow.DataFlow._construct_flow_, flownodes.DataNode"), ("writing", "flownodes.WriteNode.execute")],
     ["output files", "input files", "specification dictionaries"])
prop("C19", "Dates in output file names are the first and last time written",
     "A range of date formats in an output file name is replaced by the first and the last time in the file, in their calendar, each in its format; several ranges are all replaced and the rest of the name is kept. The time variable is the one that was named, or the one in the file that is recognisable as time (the one called time, if there are several). Without one, the name stays as it is and a warning is given. A name with a malformed range is refused, and so are several files whose names become the same.",
     ["inputs", "configurations"],
     "all time axes, calendars, units and reference dates, inherited or converted, all formats and positions of ranges, chunks of the times",
     "Tests use one time axis and one format.",
     ["flownodes.py"], [("file names", "flownodes.WriteNode._autoparse_filename_")],
     ["names of the output files"])
prop("C20", "A file under its final name is complete, even if the run dies",
     "At whatever point a run ends, fails or is killed, each final file name holds either nothing, the complete file, or the unharmed file of an earlier run; a partly written file never appears under a final name. Running again completes all files and leaves no other files behind.",
     ["crash_points", "fault_sequences"],
     "all points of a run at which it can end or fail, with and without files of an earlier run",
     "Tests never interrupt a run.",
     ["flownodes.py"], [("temporary name and rename", "flownodes.WriteNode._open_, _close_, execute")],
     ["the output directory after a failed run"])
prop("C21", "What can not be produced is left out with a warning, and only that",
     "When the input files lack a variable that definitions refer to, or a variable of the specification has no definition, exactly the output variables that need it are left out, each with a warning that names it, and exactly the output files that need such a variable (as their own, as metadata, on shared dimensions or by reference, hidden or not) are not written, each with a warning that names it. All other files are written completely and correctly. (A specification in which the file entry, the bounds or the coordinates of a variable name another one that has no definition is refused as a whole, before any file is written.)",
     ["inputs", "configurations"],
     "all input datasets, specifications, and sets of missing input variables or definitions",
     "The tests remove one variable from one fixed specification and look at a warning; which of many files survive, and whether these are complete, is not compared with the definitions.",
     ["dataflow.py", "datasets.py"],
     [("variables that are not found", "dataflow.DataFlow._create_definition_nodes_"), ("files that are left out", "dataflow.DataFlow._create_write_nodes_"),
      ("variables without definitions", "datasets.OutputDatasetDesc.__init__")],
     ["the NetCDF files written by DataFlow.execute", "DefinitionWarning"])
prop("C22", "Character variables hold the strings they are defined as",
     "A char variable that is defined as a character variable of the input files (or a part of it by index), as a list of strings, or as another such variable, holds exactly these strings at their coordinates, padded to the string length of the file, whatever lengths the strings and dimensions have, however the file is chunked (string lengths included) and whichever coordinates are reversed. Numbers defined as char variables, text defined as numbers, and arithmetic with or units of text are refused.",
     ["inputs", "configurations"],
     "all string variables and data of any rank and length, shared or separate string dimensions, chunk sizes, reversed coordinates, file formats",
     "The tests write one fixed character array without chunks; lengths, padding, reversal and chunking interact.",
     ["physarray.py", "flownodes.py", "dataflow.py", "datasets.py"],
     [("character arrays", "physarray.CharArray"), ("string data", "dataflow.DataFlow._create_data_nodes_"), ("padding", "flownodes.WriteNode, CharArray.stretch"), ("string dimensions", "datasets.OutputDatasetDesc, dataflow.DataFlow._compute_dimension_maps_")],
     ["the NetCDF files written by DataFlow.execute"])
prop("C23", "Requests that can not be met are refused, and harm nothing",
     "Executing with chunks over a dimension that some definition in the files reduces over, over unknown dimensions, with sizes that are not positive integers, with chunks that are not a dictionary or with impossible compression levels is refused with an error: no file appears under its final name, files of an earlier run are unharmed, and the flow can be executed properly afterwards. With the debug option, chunks over reduced dimensions are ignored instead and all files are right. Specifications with unknown functions or operators, wrong numbers or names of arguments, more or fewer dimensions than the definition has, or data that do not fit the size of a dimension they share with inputs are refused and their file is not written.",
     ["inputs", "configurations", "histories"],
     "all specifications and requests with any of these defects, before or after valid executions",
     "The tests try one wrong chunk request on one flow and do not look at what it leaves behind.",
     ["dataflow.py", "flownodes.py", "functions.py"],
     [("validation of requests", "dataflow.DataFlow.execute"), ("reduced dimensions", "dataflow.DataFlow._find_sumlike_dimensions_, functions.Function.sumlike_dimensions"),
      ("dimension mapping", "dataflow.DataFlow._compute_dimension_maps_"), ("failed executions", "flownodes.WriteNode.execute")],
     ["errors of DataFlow and DataFlow.execute", "the output directory"])
prop("C27", "vardeps lists exactly the variables that definitions refer to",
     "For every definitions file (with comments and empty lines) or standardization file, and every choice of output variables, the vardeps tool lists for each chosen variable (each defined one, if none is chosen) exactly the variables its definition refers to, however deep in expressions, function arguments or keyword arguments; variables that are not defined are said not to be, those that need no variables are said to have no dependencies. With the frequency option, the frequency and realm of each variable are given. At the end it lists the variables that are needed in total, each once. Data given as numbers is no definition.",
     ["inputs", "configurations"],
     "all definitions of the definition language, definitions and standardization files, choices of variables and options",
     "The tests do not run the tool; definitions nest without bound.",
     ["cli/vardeps.py", "parsing.py"],
     [("the tool", "cli.vardeps.main"), ("variables of a definition", "cli.vardeps.variable_search")],
     ["the standard output of vardeps"])
prop("C28", "The xconform command writes what the library writes",
     "Running xconform with a standardization file, input files (by name or pattern, each taken once) and any options writes exactly the files that DataFlow.execute writes for the same specification with these chunks, compression level, history and debug options, in serial or as parallel ranks (which all end); functions of user modules can be used in definitions. With the error option a failed validation is an error. Without input files nothing is written. A malformed command line (chunks that are not a name and a number, files or modules that do not exist or can not be read, unknown options) is refused, with nothing written.",
     ["inputs", "configurations"],
     "all command lines of the tool and specifications",
     "The tests of the tool only look at how options are parsed; what is written with them is not compared with anything.",
     ["cli/xconform.py"],
     [("options", "cli.xconform.parseArgs"), ("the tool", "cli.xconform.main")],
     ["the NetCDF files written by xconform", "its errors"])
prop("C24", "DynVarMIP diagnostics follow from their defining equations",
     "The dynvarmip functions (wtem, vtem, utendwtem, utendvtem, epfy, epfz, utendepfd, psitem) give, at each time, level, latitude (and longitude), the transformed Eulerian mean diagnostics of Gerber and Manzini (2016) for levels in hPa and latitudes in degrees, in either order, in the units they announce; derivatives are those of the parabola through neighbouring points and integrals those of the natural spline by Boole's rule, along any axis, also of integers. What depends on missing values is missing, nothing else is. Chunks over levels and latitudes are refused, chunks over other dimensions do not change the result. Arguments are not changed.",
     ["inputs", "configurations"],
     "all fields, levels, latitudes (ascending or descending), axes, missing values, chunk sizes",
     "The tests call each diagnostic with random numbers and do not look at the result, and the numerical functions with one vector each.",
     ["modules/idl.py", "modules/dynvarmipdiags.py", "modules/dynvarmipfunctions.py"],
     [("derivative, spline, integral", "modules.idl"), ("diagnostics", "modules.dynvarmipdiags"), ("functions in definitions", "modules.dynvarmipfunctions.DynVarMIPFunction")],
     ["returned arrays", "the NetCDF files written by DataFlow.execute"])
prop("C30", "Files are put in the order of their times, and gaps are found",
     "For files whose times follow in steps of hours, days, months or years (at the beginning, the middle or any day of these), with or without bounds, in any calendar, with any units and reference dates that may differ from file to file, get_files_in_order returns the names in the order of time, whatever the order they were given in, the number of times of each, and no error exactly if no step is missing, doubled or out of place, within files or between them.",
     ["inputs", "histories"],
     "all sets of files of at least three times, time steps, calendars, units, reference dates and gaps",
     "The tests sample three files of one calendar and reference date, with one gap in months of the same year.",
     ["mapdates.py"],
     [("order and gaps", "mapdates.get_files_in_order"), ("time steps", "mapdates.__get_time_info__")],
     ["returned names, counts and error"])
prop("C29", "iconform writes the specifications that tables and definitions ask for",
     "For CMOR tables (JSON), a definitions file (sections per table and, for coordinates, per realm; notes; input patterns), global attribute files (text, JSON or several of them, with entries to fill in) and an optional choice of variables, iconform writes one specification per activity, table and realm, holding exactly the chosen variables that the table asks for and the definitions file defines: their definition unchanged, the table's non-empty attributes (lists of text joined by blanks), the dimensions in reverse order, the type, the input pattern, the file name by the template with the dates of the frequency, the format and (for NETCDF4) the compression asked for, and the global attributes with what was to be filled in filled in; and with them an entry of the table for every dimension they need, defined by the requested values or the realm's coordinates. Data flows with these specifications write the defined data and attributes to those files. How the attributes are distributed over files, blank lines and notes, and whether names are given in a file or on the command line makes no difference. With a format that does not exist, or a definitions or attributes file that is missing, it ends with a non-zero exit code and writes no specification.",
     ["inputs", "configurations"],
     "all tables, definitions, attribute files, chosen variables and options for tables of type cmor",
     "No test runs iconform; before the repairs it failed on every CMOR table.",
     ["cli/iconform.py"],
     [("attributes and templates", "cli.iconform.defineVar"), ("axes", "cli.iconform.defineAxes"), ("definitions", "cli.iconform.load"), ("specifications", "cli.iconform.create_output")],
     ["the specification files", "the NetCDF files written with them"])
prop("C25", "The functions of the common model library compute what they are for",
     "The functions of the common model library (modules/commonfunctions.py) compute, in every cell and time, what they stand for: means over the sea surface and volume, bottom layers, sums and differences over the layers of a column down to its bottom, and the sea mask; values where a condition on ice holds, and halves of a dimension; the burnt fraction of each month, and land use, soil pools and vegetation put together from the model's types; zonal means, the age of air, and fields without invalid values; climatologies, yearly means of months and monthly values of years, with their times and bounds; bounds of a coordinate around, above or below its values, with or without given interfaces; values expanded over latitudes and longitudes, and ocean basins. Results are missing exactly where their inputs (or the sea) are, and have the dimensions and units announced without data. The arguments are left as they were. In a data flow the results do not depend on chunks (chunks of a dimension that is needed as a whole are refused with a ValueError), and their units can be converted or inherited. (cice_regions, emilnox, delp, rho and pm25 follow conventions of one model only, and are not meant here.)",
     ["inputs", "configurations"],
     "all fields, missing values, masks, calendars of 365 days, units and chunks; ocean levels, land units and types as the functions number them",
     "No test calls any of these functions; before the repairs many failed on Python 3, lost dimensions or gave missing values as numbers.",
     ["modules/commonfunctions.py"],
     [("ocean", "modules.commonfunctions.POP_*, diff_axis1_ind0bczero_4d, rsdoabsorb, sftof, ocean_basin"), ("ice", "modules.commonfunctions.cice_where, hemisphere"), ("land", "modules.commonfunctions.burntFraction, reduce_lu, get_soilpools, get_nonwoodyveg, expand_latlon"), ("atmosphere", "modules.commonfunctions.zonalmean, ageofair, masked_invalid"), ("time", "modules.commonfunctions.oclim*, monthtoyear_noleap*, yeartomonth_*"), ("bounds", "modules.commonfunctions.bounds")],
     ["function results", "announced dimensions and units", "variables of output files"])
prop("C26", "Land units and plant types of CLM become weighted means in the grid's cells",
     "CLM_landunit_to_CMIP6_Lut and CLM_pft_to_CMIP6_vegtype put values that are listed by land unit or plant type into fields of times, latitudes and longitudes: in each cell the value of its vegetation (type 1) or crops (type 2), or the mean over its urban units (types 7 to 9) weighted by their part of the cell; and the mean over its grasses (types 12 to 14), shrubs (9 to 11) or trees (1 to 8), weighted by their part of the land unit, where the cell has a land unit of vegetation. Only active units and types with a part of the cell count, the order of the lists does not matter, a mean with a missing value is missing, and cells that are not listed, or where nothing counts, are missing, as pasture is everywhere. All land uses can be asked for together. The fields have the dimensions and units announced; in a data flow their units can be converted or inherited, and chunks make no difference.",
     ["inputs", "configurations"],
     "all grids, lists of cells, land units and plant types, weights, missing values and chunks",
     "No test calls these functions; before the repairs they failed in every data flow.",
     ["modules/CLM_landunit_to_CMIP6_Lut.py", "modules/CLM_pft_to_CMIP6_vegtype.py"],
     [("land units", "modules.CLM_landunit_to_CMIP6_Lut.CLM_landunit_to_CMIP6_Lut_Function"), ("plant types", "modules.CLM_pft_to_CMIP6_vegtype.CLM_pft_to_CMIP6_vegtype_Function")],
     ["function results", "announced dimensions and units", "variables of output files"])
prop("C31", "The NetCDF facade reads and writes what it is given",
     "The facade for NetCDF files (climIO, with netCDF4) reads variables as they are in the file, whole or one index of the first dimension, with their type, dimensions and all attributes, and leaves the file as it was. A file it creates has the format asked for ('netcdf' classic, 'netcdfLarge' 64-bit offset, 'netcdf4' NetCDF-4 classic, 'netcdf4c' followed by a level, or by nothing for level 1, compressed) whatever the same port created before, and the history given. define_file gives it the global attributes of the template ('Standardized' and a line in front of its history), its dimensions (time unlimited), the named variables with type, dimensions, attributes, fill value and values, and the variable of the template under its new name; write_var writes one time of it, or of time itself, at the index given (the first without one), in any order, with the type of the variable and missing values missing. get_filename gives the name of the file in the directory, else in the current directory, else by the pattern in the directory, if there is one, and None otherwise.",
     ["inputs", "histories"],
     "all template files, formats, levels, orders of writing and patterns",
     "The tests need Nio, which is absent, and sample one file.",
     ["climIO.py"],
     [("reading", "climIO.NetCDF4PyPort.open_file, read_slice, get_var_info"), ("defining", "climIO.NetCDF4PyPort.create_file, create_var, define_file"), ("writing", "climIO.NetCDF4PyPort.write_var"), ("names", "climIO.get_filename")],
     ["values, types and attributes read", "the files written", "names returned"])
prop("C32", "Tables and specifications have what the data request asks for, as requested",
     "Tables made from a data request (type xml) hold exactly the variables that are requested of the experiment, of its group of experiments or of its project, restricted to the projects, tables or listed variables asked for: each of them with the attributes, units, time and all dimensions (spatial, further and temporal, in this order) that the request gives, also where variables of several tables have the same label; every one of its dimensions that the request describes is among the axes, with its attributes. The specifications iconform writes from them hold an entry for each requested variable that is defined, with its dimensions, file name and global attributes: those left blank are filled in with what the request says, and no others are changed.",
     ["inputs", "configurations"],
     "all data requests, experiments, projects, tables and lists of variables, all global attributes given or left blank",
     "No test reads a data request: dreqPy is absent.",
     ["miptableparser.py", "cli/iconform.py"],
     [("parsing of the request", "miptableparser.ParseXML.parse_table"), ("specifications", "cli/iconform.create_output, defineVar, fill_missing_glob_attributes")],
     ["tables", "specification files"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, sort_keys=True) + "\n")
