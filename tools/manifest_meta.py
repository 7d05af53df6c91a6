HOOKS = []
NOTES = "Static analysis of the type-checked program (MIR) extracted by /verif/driver on every run; nothing in /repo is executed."
from props import ABSINT
IMPLEMENTED = {
 "C01": dict(technique=ABSINT, note="every entry point and range case is decided on the current MIR; buffer contents and positions are unconstrained terms (positions up to 2^62)"),
 "C02": dict(technique=ABSINT, note="every entry point in every grammar case; explicit lengths up to 2^29; the character decoder and the key stream are opaque"),
 "C03": dict(technique=ABSINT, note="all success, out-of-range and key-failure paths of the referenced-string reads, cursor compared symbolically"),
 "C18": dict(technique=ABSINT, note="each formula decided as a value number modulo its width for unconstrained inputs; completeness of the backtracking search of hash families V2 and V3 is not decided"),
 "C17": dict(technique=ABSINT, note="every variant of every table argument; the Custom key kind, set at run time, is outside"),
 "C26": dict(technique=ABSINT, note="every accessor against every content kind, and every conversion; the payload types themselves are kept by the type system"),
 "C24": dict(technique=ABSINT, note="the serde derives of canvas and sound descriptions are external code; their result is used as it is"),
 "C29": dict(technique=ABSINT, note="each ident and each branch of the version-word rule on an unconstrained buffer; how the four ident bytes become text is the scroll crate's"),
 "C14": dict(technique=ABSINT, note="Loops over the entry table are taken to a fixpoint, so the verdict covers tables of any length; the readers of single fields are grammar symbols (decided by C01/C02) and the file is assumed shorter than 2^61 bytes."),
 "C15": dict(technique=ABSINT, note="V1 and V2 parsing interpreted with verification, node creation and candidate generation as fallible events"),
 "C16": dict(technique=ABSINT, note="opening functions with verification and detection as events; verification functions over grammar symbols; that another key cannot decode the probe by chance is outside"),
 "C27": dict(technique=ABSINT, note="abstract interpretation of every path lookup and link resolver; the loop's node and index variables are matched by induction against the documented walk on every back edge and exit, for any path and tree"),
 "C30": dict(technique=ABSINT, note="tables are compared entry by entry with tables computed from the AES S-box and SNOW 2.0 field definitions; the clocking, keystream and key loading steps are interpreted on a symbolic state and compared with the reference expressions"),
 "C25": dict(technique=ABSINT, note="Headers, entry tables and entry images of both generations, for any file name, salt and contents; the two cipher readers are symbols here (their block functions: C30), and the salt and names are taken as strings of single-byte characters."),
 "C22": dict(technique="effect analysis over the call and reference graph of type-checked MIR: every file-mutating call and every way into it", note="file system effects of std and of the memory mapping crate by name; writes made by the caller's own Write value are the caller's; writes through the library's dependencies (image, zip) are matched by their saving entry points"),
 "C28": dict(technique="compiler auto-trait evaluation for every exported type, and enumeration of every unsafe operation in the type-checked program", note="type parameters taken as plain data; two types that belong to one read in progress are excepted by the statement"),
 "C13": dict(technique=ABSINT, note="parsing, callback and recursion are events; the callback is taken not to change the tree itself; cyclic links excluded by the statement"),
 "C10": dict(technique=ABSINT, note="the readers of the children are events that succeed or fail (C04/C14/C15/C25 decide what they read); link resolution is C27's"),
 "C04": dict(technique=ABSINT, note="every record code and extended kind, nested records by contract"),
 "C06": dict(technique=ABSINT, note="payload ranges followed from the record that is parsed into the public accessors of each payload type"),
 "C11": dict(technique=ABSINT, note="parent links and names of all nodes put into a children map, nested builders as contracts"),
 "C05": dict(technique=ABSINT, note="Modular: the reading methods and the record parser are symbols; decided for every record code, container kind and path length by induction over the two loops. Assumes cursor positions below 2^60 and distinct names within one container."),
 "C19": dict(technique=ABSINT, note="texts up to 2^29 bytes; the standard UTF-8/UTF-16 conversions are trusted to be inverse"),
 "C20": dict(technique=ABSINT, note="pixel functions of both builds compared; pixels of RGB565_517 expansion and BC7 are outside the comparison's colour arithmetic"),
 "C21": dict(technique=ABSINT, note="bytes written through every accessor compared with the stored range"),
 "C09": dict(technique=ABSINT, note="each key state: extending (loop closed by induction over its counter), decrypting, re-keying; every use of a stream and every replacement of a key with the paths that lead to it; AES itself is not judged"),
 "C12": dict(technique=ABSINT, note="every function that transitively takes a lock; acyclic trees assumed; recursive read locks not judged"),
 "C08": dict(technique=ABSINT, note="every function holding a write lock on a key state; implementations of the methods called there"),
 "C23": dict(technique=ABSINT, note="every fallible call of every entry point ends in success or failure in the abstract run; a failed call must make its caller fail"),
 "C34": dict(technique=ABSINT, note="each format's pixel function, obtained by interpreting the decoder over symbolic bytes, is brought to linear forms over bits and compared with the published layout"),
 "C35": dict(technique=ABSINT, note="every depth up to 4 (5 in the thorough run), every kind of node at every place, names unconstrained; concrete awkward names besides"),
}
