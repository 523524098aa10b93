na={}
claims["C03"]={"note":"every ApplyToSchema of the validation markers under contract; frame and acceptance conditions for all values and schemas"}
claims["C04"]={"note":"every topology marker under contract; acceptance, effect and frame for all markers and schemas, and the order of list type before list map key"}
claims["C05"]={"note":"every CRD-level marker under contract for any list of versions; the annotation and label maps of one object are assumed to be distinct maps"}
claims["C17"]={"note":"the marker-to-webhook translation and every rejection rule under contract for all marker values; whole runs of the generator by a bounded oracle"}
claims["C10"]={"note":"truncation of one description under contract for all texts and limits (UTF-8 validity by assumed facts of the UTF-8 encoding); whole trees by a bounded oracle"}
claims["C08"]={"note":"link generation, decoding and resolution under contract for all paths and names; that undoing the escaping gives back the path is an assumed string lemma, executed on samples; whole parses by a bounded oracle"}
claims["C09"]={"note":"walkSchema, walkMap, walkSlice and walkPtr under contract by induction on the walk, for any visitor and tree-shaped schema, keyword group by keyword group; dependencies, all keywords together and the order of visits by a bounded oracle"}
claims["C14"]={"note":"splitMarker, the registry's lookups and registrations under contract for all texts and registry contents; the first-use initialisation and lock are assumed to have no other effect; parses of whole comments by a bounded oracle"}
claims["C11"]={"note":"the mapping of basic types, named types, arrays, maps and pointers under contract for all types, with the answers of go/types given by a table of assumed facts; whole parses of random field types by a bounded oracle"}
claims["C20"]={"note":"reading, setting and deleting paths of one and two keys (all lengths in use) under contract for all documents without anchors and duplicate keys; longer paths and whole patches by bounded oracles"}
claims["C01"]={"note":"ToRule and addVerbs under contract for all rules; the merging of rules (a closure over maps of pointers in GenerateRoles) by a bounded oracle that compares permission sets over overlapping alphabets"}
claims["C02"]={"note":"removeDupAndSort under contract for all lists (sorted, no duplicates, same elements); the independence of order and the normal form of whole manifests by a bounded oracle"}
claims["C18"]={"note":"output rules (which directory an artifact goes to, which rule a generator gets, how rule names split) under contract with the file system's answers assumed; whole option lists by a bounded oracle"}
claims["C21"]={"note":"the decisions (which package and type gets methods, which is an API object, what is copied by assignment, which receivers are pointers) under contract for all types and markers, with the answers of go/types assumed; whole generated files, compiled and run on random values, by a bounded oracle"}
claims["C06"]={"note":"NeedCRDFor under contract: what is stored is well-named, sorted, stored and served or reported, whatever the markers do to the definition (markers are external to this contract and are under contract for C05); that every declaring version has an entry with the schema of its type is checked by a bounded oracle over scratch modules"}
claims["C07"]={"note":"preserveFields and allOfVisitor.Visit under contract for all schemas; the reflective merge flattenAllOfInto and whole programs by bounded oracles that evaluate instances and compare keywords"}
claims["C22"]={"note":"NeedImport, usableAlias and ImportSpecs under contract for all import lists and paths; termination of the search for a free alias is not proved; whole histories by a bounded oracle"}
claims["C12"]={"note":"structToSchema's treatment of one field (names, inlining, required or not, metadata) under contract for all tags, markers and types; JSON tag parsing details and whole structs by a bounded oracle"}
claims["C13"]={"note":"applyMarkers under contract for all marker sets: which markers are applied to which schema, in ascending priority and source order, and how items markers descend; the order of whole sets by a bounded oracle as well"}
claims["C15"]={"note":"argument names and options, argument types, integers, numbers, booleans and definitions' shape under contract for all texts and types, with the scanner's and reflect's answers assumed; strings, slices, maps, guessed types and whole markers by a bounded oracle that renders values and parses them back"}
claims["C16"]={"note":"which comment is a type's, which comments are markers, and that exactly the others make up the text, under contract for all comments; which lines of that text are kept (fences, ---, TODO) by a bounded oracle"}
claims["C19"]={"note":"Runtime.Run, PrintErrors' outcome, AddError for every kind of error and lists, MaybeErrList under contract for any number of generators, packages and errors; packages.Visit is assumed to call back once per package; what is printed, failing writes at every point and concurrent parsing by bounded oracles"}
