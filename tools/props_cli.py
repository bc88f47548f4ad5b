from props_iri import p
D = "rdftk_cli/src/"
MA, CM, RP, DR = D+"main.rs", D+"commands/mod.rs", D+"commands/representations.rs", D+"commands/draw.rs"
NO = "rdftk_cli has no tests"
P = [
p("X01", "The command line program writes what it was given to read, in the format asked",
  "Converting, or drawing, a document that can be read, to a format that can express it, succeeds and writes a document of that format that says exactly what the one read says, in the graphs it says it, to the file or stream asked for and nothing else there, replacing what the file had. Anything else fails with a message and an exit status that says so; nothing makes it panic, and logging changes nothing that is written.",
  ["inputs", "configurations"], "every document, pair of implemented formats, choice of files and streams, and level of logging",
  NO+"; it could not convert data sets, and wrote its log into its output.",
  [RP, DR, CM, MA], [("convert", RP+": impl Command for ConvertCmd"), ("draw", DR+": impl Command for DrawCmd"), ("readers and writers", CM+": read_graph, read_dataset, write_graph, write_dataset"), ("logging", MA+": init_logging")],
  ["exit status", "bytes of output file, stdout and stderr"],
  "property-based testing of the program as a process: differential against reference readers of each format, up to isomorphism", "documents as for W06; formats the library cannot read or write are in X02"),
p("X02", "The command line program never exits with success when it failed",
  "If the output cannot be written, the input cannot be opened or read, a format has no reader or writer, or the arguments are wrong, the program exits with a status other than 0 and says why on stderr.",
  ["fault_sequences", "inputs"], "every conversion to a device that is full, and every combination of formats that cannot be read or written",
  NO+"; output lost on a full device passed for success.",
  [RP, DR, CM, MA], [("output", RP+", "+DR+": execute"), ("exit status", MA+": main")],
  ["exit status", "stderr"], "property-based testing of the program as a process, with the output device full", "/dev/full stands for every device that is full"),
]
