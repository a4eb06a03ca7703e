# property -> (technique, level, level_note); read by tools_manifest.py
BE="bounded-exhaustive exploration of the real code with an independent certificate checker"
NA={}
C["P01"]=(BE,"exploration","Every case of the listed families is run on the compiled library; verdict and rotation system are checked by an independent planarity oracle and face tracing. Exhaustive within the families only.")
C["P02"]=(BE,"exploration","As P01; each obstruction is recognised by an independent subdivision checker.")
C["P03"]=(BE,"exploration","As P01, with an outerplanarity oracle from the definition (K4 and K2,3 subdivisions) and a common-face test.")
C["P04"]=(BE,"exploration","As P02 for K4/K2,3.")
for k,t in (("P05","K2,3"),("P06","K4"),("P07","K3,3")):
    C[k]=(BE,"exploration",f"Every case of the listed families is searched by the compiled library; the verdict is compared with an independent subdivision search and each result is recognised as a {t} subdivision of the input. Exhaustive within the families only.")
C["P08"]=(BE,"exploration","Each drawing of the families is checked geometrically from its coordinates; exhaustive within the families.")
C["P09"]=(BE,"exploration","Each rendition and drawing section of the families is compared with an independently rendered one; exhaustive within the families.")
C["P10"]=("bounded-exhaustive fault enumeration on results","fault_enumeration","Every single corruption from a fixed alphabet applied to every result of the families; the integrity test must agree with an independent oracle on each.")
C["P11"]=(BE,"exploration","Every case is numbered, sorted and given lowpoints in several call orders, checked from the definitions.")
C["P12"]=("explicit-state breadth-first search of editing operations, each transition executed on the real library and compared with a model","model_checking","All operation sequences to the stated depth (some models to closure) from each start state; every transition is replayed on the implementation.")
C["P13"]=("explicit-state enumeration of hide/contract/identify/restore histories executed on the real library and compared with a model","model_checking","All histories to the stated depth on the listed graphs; every one is replayed on the implementation.")
C["P14"]=(BE,"exploration","Capacity growth by every listed step on every listed graph, with the results compared to a graph that never grew; memory errors detected by AddressSanitizer.")
C["P15"]=("explicit-state enumeration of history pairs around a copy, executed on the real library with AddressSanitizer and compared with snapshots","model_checking","Every pairing of a preparation history, a kind of copy and later operations on either graph (within the listed alphabets) is executed; the untouched graph must keep its snapshot and the copy must behave like its source.")
C["P16"]=("explicit-state enumeration of histories on a reused object, executed on the real library and compared with a fresh object","model_checking","Every history to the stated depth, followed by reinitialization and each use, is executed and compared with the same use of a fresh object.")
C["P17"]=("explicit-state enumeration of attach/detach/size/run orders, executed on the real library with AddressSanitizer and compared with single-feature runs","model_checking","Every order of the listed operations to the stated depth is executed on the implementation.")
ENUM="bounded-exhaustive exploration of the real code against an independently written encoder and parser"
C["P18"]=(ENUM,"exploration","All digraphs of order up to 4 (5 thorough) in several list orders and both bases, written, parsed independently and read back through files and strings with AddressSanitizer; all independently written texts of the families are read.")
C["P19"]=(ENUM,"exploration","All small graphs, every single bit position of many orders, and sparse and dense graphs of large orders, through all endpoints, headers and line ends, compared with an encoder written from the definition.")
C["P20"]=("explicit-state enumeration of graph sequences, cuts and replaced members through the stream writer and reader of the real library","model_checking","All sequences of the listed lengths over small graphs, every prefix of each text, and every placement of a graph of another order.")
C["P21"]=("exhaustive enumeration of texts: all short texts over format alphabets and all single (and for some bases double) edits of valid texts, run on the real readers","exploration","Every text of the families; an independent classifier decides which must be refused; AddressSanitizer, a hang limit and an open-file count watch all of them.")
C["P25"]=("explicit-state enumeration of operation sequences executed on the real objects in two build configurations and compared with plain models","model_checking","All operation sequences to the stated depth over small domains, in the optimized and the debugging configuration, under AddressSanitizer.")
C["P27"]=("lock-step bounded-exhaustive exploration of two build configurations of the real code","exploration","Every case of the families (graphs and presentations, histories, changed texts) is executed by the optimized and by the debugging build and everything returned is compared.")
C["P22"]=("exhaustive fault injection into the real library: every single failing allocation, every point from which all fail, and pairs of failures, over histories covering all allocating entry points","fault_enumeration","Every allocation of every listed history is made to fail, alone and with all later ones (thorough: in pairs); results, states and the balance of memory and files are compared with the undisturbed run under AddressSanitizer.")
C["P23"]=("exhaustive enumeration of the answers of the random source, played into the real generators","model_checking","The random source is a tape; all tapes over the residues the generators distinguish are played for the tree and a number of further edges, and all combinations of extreme values.")
C["P24"]=("bounded-exhaustive execution of the real command-line program, compared with independent parsers, oracles and the library","exploration","Every command line, batch file, menu session and changed sample of the families is executed by the program, in process under AddressSanitizer and for a part as an executable; exit status, messages and output files are checked.")
C["P26"]=("explicit-state enumeration of histories on one or two objects, executed on the real library with an allocation ledger and AddressSanitizer","model_checking","Every history to the stated depth (successful and refused operations) ends with freeing what the caller owns; the ledger of allocations and open files must then balance.")
C["P28"]=("bounded-exhaustive execution of the real code with every basic block counted, over all periodic and self-similar graph structures of the families at two sizes","exploration","All column and connection patterns of up to 3 rows and 2 hubs (and sparse connections of columns of 4 and 5 vertices), all substitution gadgets with up to 3 inner vertices, under up to 8 numberings; every library operation is run at both sizes and its steps per vertex and edge compared.")
C["P31"]=("explicit-state exploration of small models in lock-step with the real records (every transition replayed on the code)","model_checking","All reachable states of the flags of an edge and of two vertices, of adjacency lists of up to 5 arcs, of root lists over up to 4 children; all sequences of 3 assignments to vertex records; all child lists and predicate inputs; both array configurations.")
C["P30"]=("lock-step bounded-exhaustive exploration of two build configurations of the real code, one with 0-based arrays under AddressSanitizer","exploration","Every case of the families (graphs and presentations, histories, changed texts) is executed by the standard build and by the build with NIL -1, and everything returned is compared.")
C["P29"]=("stateless exploration of the real code under a controlled scheduler with a switching point in every basic block: all operation interleavings, all schedules with one preemption, and with two of them one at operation boundaries","model_checking","Every pair of 16 scripts covering embedding, searches, drawing, editing, numbering, formats, streams and copies; each must return exactly what it returns alone.")
