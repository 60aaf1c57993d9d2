AI = "abstract interpretation of the compiler's MIR"
LOOP = "The coroutine bodies of the peer's loops are interpreted from their loop invariant over symbolic registers, flags, queues and messages; "
WIT = "Generated witness interfaces (fixed ones with every kind of item plus random ones) are expanded by the macro of the current tree and the generated MIR is interpreted with the format left abstract; the description they were printed from is the oracle. "
CW = "compile-pass/compile-fail witnesses (type checker as the decision procedure)"
TECH2 = {
 "C09": (AI + " (waker discipline on every pending path)", "Transport poll functions are iterated over arbitrary socket schedules; every other poll function of the crate is interpreted once for every outcome of its inner polls."),
 "C10": (AI + " (typestate of the request registers)", LOOP + "the search for a free ID is solved to a fixpoint."),
 "C11": (AI + " (message routing by key provenance)", LOOP + "the entry that gets a message must be the one found under the message's own ID in the map of its direction."),
 "C12": (AI + " (typestate of requests, event order)", LOOP + "order of queueing, removal and flag on every path."),
 "C13": (AI + " (typestate: closed flag checked before every write)", LOOP + "flag provenance from registration to handles, clones and queued commands."),
 "C14": (AI + " (conservation of messages at every suspension point)", "Receive functions are interpreted from an arbitrary handle; the ledger of held, taken and returned messages is checked at every await and return."),
 "C15": (AI + " (typestate of the request registers)", LOOP + "both outcomes of the lookup are followed."),
 "C16": (AI + " (typestate, error and cancellation paths)", LOOP + "event order of registration, write, answer and removal."),
 "C17": (AI + " (one answer per command, result provenance)", "Send operations are composed with the command loop: command fields, answer and write result are followed by value. Generated send functions are included."),
 "C18": (AI + " (typestate, write result before removal)", LOOP + "event order of write and removal."),
 "C20": (AI + " (resource counting of handles)", "The effect of each public function on the loop's counters is compared with the change in the number of live handles in its arguments and results."),
 "C21": (AI + " (error flow)", LOOP + "fatal and non-fatal results of reads and writes are followed to the loop exits and to the handle."),
 "C22": (AI + " (event order on the failed delivery path)", LOOP + "paths on which the read handle is gone."),
 "C23": (AI + " (enumeration of suspension points, effects)", LOOP + "all awaits and all channel constructors reachable from the loops and operations are enumerated."),
 "C24": (AI + " (ownership of channel ends)", "The values of both ends of all channels are followed through constructors, loops and operations; drop order is decided by ownership."),
 "C25": (AI + " (identity of handles by value)", LOOP + "the handles they make are asked for their IDs, and the operations of each handle are compared with what it reports."),
 "C33": (AI + " (one system call, provenance of address, socket and configuration)", "Connect, Bind, Listener::bind and Peer::connect are interpreted with an arbitrary address and configuration."),
 "C26": (AI + " (relational: laws of equality, order, hashing and copying)", "Each implementation is interpreted on two or three arbitrary values; the variants of enums are enumerated, numbers stay symbolic."),
 "C34": (AI + " (identity of the wrapped object by value)", "Every accessor and constructor of transports, halves and peers is interpreted on an arbitrary object."),
 "C46": (CW, "Six visibilities, 21 generated items, five distances of use; refusals must be privacy errors. All public methods of the generated items are called from another module."),
 "C45": (AI + " of macro-generated code (side by side with the library's functions)", WIT),
 "C61": (AI + " (provenance of body contents)", "Every conversion of the body types is interpreted with arbitrary contents."),
 "C62": (AI + " (data flow into the formatter)", "Display and Debug of every error variant, and of the errors made by every public constructor."),
 "C30": (AI + " (loop exits of the accept loop)", "Listener::run is solved to its loop invariant with an abstract socket."),
 "C31": (AI + " (effect analysis of file removal)", "Every call that can remove a file is found in the whole crate; every path to it is checked for the guard on the same value."),
 "C40": (AI + " of macro-generated code (witness interfaces)", WIT + "Thorough: 16 further sets of random interfaces."),
 "C41": (CW, "318 invalid interfaces and their valid twins are compiled against the library of the current tree; macro expansion and type checking only, nothing is run."),
 "C42": (AI + " of macro-generated code (error check before decoding)", WIT),
 "C43": (AI + " of macro-generated code (every path returns what it took)", WIT),
 "C44": (AI + " of macro-generated code (introspection against declaration)", WIT),
 "C50": (CW, "Witnesses are generic over body, transport and format, so acceptance holds for all of them; rejections carry the expected error code."),
 "C51": (CW + " for every feature combination", "Exhaustive over the 16 combinations, with one witness per documented item."),
 "C80": ("abstract interpretation of the Lua source (symbolic segment offsets), compared with the byte layout interpreted from MessageHeader::encode", "Own Lua parser and evaluator; nothing is run in Wireshark."),
 "C70": (AI + " (two-future select, loop composition)", "Select::poll over arbitrary futures, and Peer::run with its real loops."),
}
NA = {
 "C81": "A liveness property over all schedules: that every ready operation is eventually served depends on the fairness of the tokio executor, of its channels and of the remote peer, which no argument over this crate's source can bound. The safety half (a poll function never returns pending without registering a waker, the loops wait for nothing else) is decided by C09 and C23.",
}
