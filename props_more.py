TDEV = "The device tests run one channel program at a time through a well-behaved channel; they do not range over every tag combination in every device state."
FDEV = ["src/model1442/model1442.c", "src/model2415/model2415.c", "src/model1052/model1052.c"]
MDEV = [("model1442_dev, model2415_dev, model1052_dev", "bus function of each device, called once per channel step with the tag lines")]
prop("C13", "A device joins the channel only when it is called or polled",
     "The card reader/punch, the tape control and the console typewriter take part in a channel sequence only when their own address is called, or when they have a pending request and are polled; otherwise they leave the tag and bus lines and their own state alone. A called device takes select and answers selected or busy, raises only the inbound tags of the step it is in, never touches the channel's own tags except select, and leaves the bus when the channel is done with it. Request-in is raised only for a pending request while the channel is free, and taken back while another device uses the channel.",
     ["inputs", "histories", "schedules"], "every device state and every combination of tags and bus contents, one call of the device's bus function", TDEV, FDEV, MDEV)
claim("C13", "Inductive invariant and postconditions of the bus function of each device, from every state satisfying the invariant; the media routines it calls are stubs with arbitrary results.")
prop("C14", "Addresses, status and data cross the channel exactly and with parity",
     "Whenever the card reader/punch, the tape control or the console typewriter answers, the bus carries exactly its address, its status or its data byte with odd parity. A byte offered on service-out is taken exactly once; a command or byte with bad parity is not used and sets bus-out check, and a stop from the channel ends the transfer without taking data.",
     ["inputs", "histories"], "every device state, tag combination and bus content including bad parity", TDEV, FDEV, MDEV)
claim("C14", "Postconditions of the bus function of each device, from every state satisfying the invariant proved under C13.")
prop("C15", "Device status is kept until it is accepted and never lost",
     "Status of the card reader/punch, the tape control or the console typewriter stays until the channel accepts it or resets the device; status the channel refuses is kept unchanged and offered again. While status is pending or the device is busy no new command is started. An interface reset clears status, sense, requests and the operation in progress and takes the device off the bus.",
     ["inputs", "histories", "schedules"], "every device state and tag combination, one call of the device's bus function", TDEV, FDEV, MDEV)
claim("C15", "Postconditions of the bus function of each device, from every state satisfying the invariant proved under C13.")
prop("C20", "Every scheduled event fires exactly once, on time and in order",
     "An event scheduled with a delay of n fires exactly once, on the n-th advance of the clock, with the device and argument it was given; a delay of zero fires at once. Events due earlier fire first, and adding or cancelling one event never changes when any other event fires. Cancelling removes exactly the earliest pending event with that device and callback, also when a callback itself adds or cancels events.",
     ["histories", "schedules"], "every queue contents, delay, device and callback, and additions or cancellations made from inside a callback",
     "The tests use one fixed set of delays and never cancel the middle of a queue or change the queue inside a callback.",
     ["src/event.c", "src/event.h"], [("add_event, cancel_event, advance", "event queue, delays stored relative to the predecessor")])
claim("C20", "Bounded stand-in: the contracts of add_event, cancel_event and advance are checked for every queue of up to 3 (thorough: 5) pending events, all delays symbolic.", level="other")
prop("C21", "Configuration lines are parsed exactly and never overrun their buffers",
     "Every configuration line yields the model name, address, options, indexes, quoted strings and numbers it spells, or is rejected, and the unread rest of the line is left in place. Names, strings and option values longer than their field are cut or rejected without writing beyond it, and the parser never reads past the end of the line.",
     ["inputs", "configurations"], "every line of characters, including malformed and over-long ones",
     "Tests parse a few well-formed lines; they do not cover over-long words, unterminated quotes, stray separators or missing values.",
     ["src/conf.c"], [("get_model, get_addr, get_option, get_string, get_integer, get_index", "configuration scanner")])
claim("C21", "Bounded stand-in: every line of up to 10 characters, and words and strings at the field limits; contracts of each scanner function.", level="other")
T50 = "The Model 50 tests run a few hundred instructions with hand-picked operands through the microcode; they never range over the control words and register contents one cycle can meet."
F50 = ["src/model2050/cpu2050.c", "src/model2050/model2050.h"]
M50 = [("cycle_2050", "src/model2050/cpu2050.c: one micro-instruction cycle in CPU mode")]
def p50(pid, title, statement, why=T50, state=None):
    prop(pid, title, statement, ["inputs", "histories"], "every control word, register contents and storage beat, CPU mode, console idle", why, F50, M50)
p50("C07", "The Model 50 adder computes the function the control word names",
    "In every CPU-mode cycle of the Model 50 the adder output is the sum of the selected left and right inputs (complemented if asked) and carry-in, with no carry into the characteristic where the word separates it. Carry status, decimal correction digits, the auxiliary carry and status bit S1 follow from exactly the carries and digits the adder function names. A cycle that has to wait for storage changes none of them.")
claim("C07", "Postconditions of cycle_2050() against an arithmetic definition of sums and per-position carries, for every control word in CPU mode with idle console and channels.")
p50("C08", "The Model 50 shifter loses no bits and feeds exactly the latch, F and Q",
    "In every CPU-mode cycle of the Model 50 the adder latch receives the adder output shifted, sign-modified or replaced exactly as the control word says, bits shifted out go to F or Q and bits shifted in come from them, and F stays four bits wide. Floating-point shifts leave the characteristic alone except where the word replaces it. H changes only when the word names it, and a waiting cycle changes none of these.")
claim("C08", "Postconditions of cycle_2050() relating latch, F, Q and H after the cycle to the adder output (C07) and the registers before it.")
p50("C09", "The Model 50 mover and counters deliver the bytes and counts asked for",
    "In every CPU-mode cycle of the Model 50 the mover output is the selected function of the selected bytes, digit by digit, and it is delivered to exactly the destination the control word names: a byte of M, the byte counters, the G counters, MD, F, J, condition code and program mask, or system mask. Counters step or are set exactly as asked, remember when they pass below zero, and an external or timer interruption source is taken once. Digit-test words trap on a digit above nine.")
claim("C09", "Postconditions of cycle_2050() for mover, ASCII adjustment, byte and G counters and the PSW bytes.")
p50("C10", "Model 50 storage accesses are exact, protected and confined",
    "A Model 50 storage request runs through its read and write beats on exactly the requested word, delivers that word to the data register, and a store changes that word and no other word of main or bump storage. A store under a mismatching storage key changes nothing and traps; addresses beyond installed storage and misaligned addresses trap without an access; keys are read and set only for the addressed block. A word that needs storage waits, changing nothing, and a store into the prefetched instruction word is noticed.")
claim("C10", "Postconditions and a ghost-address frame on cycle_2050() with all memory-safety obligations, for 64K and 256K (thorough: 512K) of main storage; the beat before a reset (state 0) is not covered.")
p50("C11", "The Model 50 microcode always continues at the address its word defines",
    "After every CPU-mode cycle of the Model 50 the next control word is the one given by the word's page, function or field bits and its A and B branch conditions, each condition testing exactly the register, status, previous result or pending interruption it names. Traps for invalid digits, protection, alignment and invalid addresses override it, a return goes back to the saved address, and a waiting cycle repeats its word. Pending timer, external and channel interruptions are seen at instruction fetch unless the machine is stopping.")
claim("C11", "Postconditions of cycle_2050() for the next address; branch conditions the simulator leaves undefined and condition pairs the microcode never uses are outside.")
p50("C12", "Each Model 50 cycle changes exactly the registers its word names",
    "In every CPU-mode cycle of the Model 50 the latch goes to exactly the registers or parts of registers the word names, local storage is read or written at exactly the addressed word with the value current in that cycle, and all other registers keep their contents. Status bits, sign bits, condition code, instruction length and address, byte mask, function registers and mode bits take exactly the value the word's status function defines. Instruction decode splits every instruction word correctly.")
claim("C12", "Postconditions of cycle_2050() for destinations, local storage (ghost address), status, condition code, signs and control registers; status bit S4 after an exponent subtraction and R after the SR4->H shift are left open.")
prop("C16", "A 1442 moves every card once and every column exactly",
     "A read of the 1442 delivers each column of the card in the read station once and in order, with data check exactly for columns that are no valid character, and ends after column 80 or when the channel stops it. A write punches each byte into the next column, never removes a hole and goes no further than column 80. A feed moves each card one station on, whole, and into the selected stacker; every started command ends exactly once with channel end and device end, with the sense that explains a unit check.",
     ["inputs", "histories"], "every card, column, command, pending flag and hopper state, one step of the running operation",
     "The tests read and punch a few decks without overruns, early stops, invalid columns, full stackers or end of file.",
     ["src/model1442/model1442.c"], [("read_callback, write_callback, feed_callback, device_stop, device_cmd", "src/model1442/model1442.c: the operations behind the channel interface")],
     [("_1442_context", "cards in the read and punch station, column counters, pending status and sense")])
claim("C16", "Postconditions and an invariant on each step of a 1442 operation; the card deck routines and the event queue are stubs with arbitrary results, their calls recorded.")
prop("C17", "A 1443 prints every line as it was sent and keeps its place on the form",
     "A 1443 write prints, in order, the graphic of every byte of the line, drops nothing but trailing blanks and prints a full stop for a byte without graphic. Spacing one to three lines or skipping to a carriage-tape channel puts exactly that many line ends into the output, starts a new form exactly when it passes the last line and leaves the printer at the line the tape and command define. Leaving a line with a channel 9 or channel 12 punch while spacing after a write is reported, and nothing else is.",
     ["inputs", "histories"], "every line of up to 120 bytes, form position, carriage tape of 66 lines and valid write or immediate command",
     "The tests print a few fixed lines near the top of one form with the standard carriage tape.",
     ["src/model1443/model1443.c", "src/xlat.c"], [("print_line", "src/model1443/model1443.c: text, spacing and skipping of one command"), ("ebcdic_to_ascii", "src/xlat.c")],
     [("_1443_context", "line buffer, form position, carriage tape, status and sense")])
claim("C17", "Postconditions of print_line(), the form position and line length case-split over all their values; forms of 66 lines; the on-screen copy of the last lines is checked for bounds only.")
prop("C18", "A 2415 transfers every tape frame once and ends every operation",
     "On nine-track drives a running 2415 read offers the channel each frame of the record once and unchanged, and a write puts each byte it is given on the tape once. Whatever the tape answers (data, end of record, tape mark, end or beginning of tape, or an error) the operation goes on by exactly one further step or ends with device end, at the end of the record, with unit check exactly when sense data explains it and unit exception for a tape mark. A command moves only the addressed drive, only when it is there, ready and (for writing) has a ring; a rewind reports the unit ready once and disturbs no other operation.",
     ["inputs", "histories"], "every command, drive state, pending flag and tape answer, one step of the running operation",
     "The tests read and space over a few good records; none writes, meets an error, overruns, or rewinds one drive while another is used.",
     ["src/model2415/model2415.c"], [("tape_callback, done_callback, model2415_rewind_callback, device_cmd", "src/model2415/model2415.c: the operations behind the channel interface")],
     [("_2415_context", "command, pending status and sense, rewind/unload/ready flags per unit")])
claim("C18", "Postconditions on each step of a 2415 operation; the tape file routines and the event queue are stubs with arbitrary results, their calls recorded; seven-track conversion and the display position are outside.")
prop("C23", "A tape gives back exactly the records written, in any direction",
     "A tape file behaves as one sequence of bytes: a byte read, forwards or backwards, is the byte last written at that position or the file's own, whatever window of the file is in memory, and no write, rewind, end of file or file error loses, moves or invents a byte; detaching writes everything back. A record written frame by frame carries its exact length in front and behind (or starts with the inter-record flag), and reading or spacing over it forwards or backwards delivers exactly its frames, recognises tape marks and the end of the medium, and leaves the tape exactly at the next record.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every file, window, position, record length up to 4 GB, of the three file formats, and a file error at any access",
     "The tests write and read back a few short records of one file; they do not cross the 32K window with dirty data, mix reading and writing, meet file errors, cut-off files or records left in the middle.",
     ["src/device/tape.c", "src/device/tape.h"], [("tape_read_byte, tape_peek_byte, tape_write_byte, tape_readbk_byte, tape_write_prev, tape_start_rewind, tape_detach", "src/device/tape.c: the byte window"), ("tape_write_start, tape_write_frame, tape_write_mark, tape_finish_rec, tape_read_forw, tape_read_back, tape_read_frame, tape_rewind_frames", "src/device/tape.c: records over the byte window")],
     [("struct _tape_buffer", "window position, length, dirty flag, record counters and format flags")])
claim("C23", "Byte functions: invariant and postconditions with an arbitrary ghost file offset, the file system calls modelled. Record functions: postconditions, the byte functions replaced by the contracts proved for them; a skip of any number of frames is decided by induction over the frame contract. A zero-byte record and the erase gap are outside; the log loops print nothing in the harness.")
