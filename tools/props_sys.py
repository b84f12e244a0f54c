SN = "Plans are behaviours of the specification generated by TLC (-simulate, seeded) and replayed into the real classes in a scratch folder; every answer and every resulting byte is judged by TLC. Trusted: TLC, the specification, the driver."
prop("S01", "A JSON document reads back as it was written",
     "A document written token by token (maps, sequences, strings, numbers of every width, booleans, vectors, nested vectors and maps) into a text or binary buffer, in memory or in a file, reads back as the same tree: every handle on a node, however and in whatever order it was reached, copied and read, reports the node's kind, name, number of children, keys, children in order in both directions, and a value equal to the written one in every type that can hold it, as a single value or as a vector, nested vector or map of values. Empty containers, empty strings and sequences of one element are no exception. Reading logs no errors. Names and strings may not contain line ends, tabs and brackets, names no colon.",
     ["inputs", "histories"], "every document of the stated alphabet, every order of reading it",
     "The tests store a few objects; the claim is about every nesting, where defects hide in empty strings, empty containers and mixed sequences.",
     ["basicsys/src/sys_json.cpp", "basicsys/include/sys_json.h"],
     [("writers", "sys_json_writer::text_write_str, binary_write_str, pre_process_map_seq, post_process_map_seq"), ("readers", "sys_json_reader::load, text_load_struct_info, binary_load_struct_info, operator>>"), ("containers", "write and read templates of sys_json.h")],
     "Model: for every document of up to 6 (thorough 7) nodes the text and the binary form, written step by step as the writers do and scanned as the readers do, give the document back. " + SN + " In text a sequence holds either scalars or containers.", ["the document, the answers of the readers"])
prop("S02", "Buffers store and return exactly the bytes written",
     "Bytes written to a byte or text buffer, in memory or in a file given by path, owned or lent, land at the position of the writer and nowhere else (a gap sought over is zero in byte buffers; numbers are written to text in their decimal form); positions move as written, read and sought from the start, the current position and the end. Readers return exactly the stored bytes, as numbers of every width, raw bytes, strings that may contain zero bytes, characters, lines and numbers in text, and report size, remaining size and end; a read that asks for more than is left returns nothing, does not move and leaves the status at end of file, which stays. Opening a file for writing truncates it or appends to it as asked; a file that cannot be opened is reported by the status and not open. Closing makes everything written available to the next reader and releases the file, except a lent one, and no file stays open longer.",
     ["inputs", "histories"], "every sequence of opening, writing, seeking, reading and closing", "The tests write and read a few values in order; the claim is about all interleavings of positions, kinds and sizes.",
     ["basicsys/src/sys_buffer.cpp", "basicsys/include/sys_buffer.h"],
     [("writers and readers", "sys_string_buffer_writer, sys_byte_buffer_writer, sys_string_buffer_reader, sys_byte_buffer_reader"), ("memory and files", "sys_memory_*, sys_file_*")],
     "Model: every session of two handles over a store in memory and a file with short writes (positions in range, single writer, frame condition, sticky status, lines). " + SN, ["bytes, positions, status"])
prop("S03", "String functions meet their definitions",
     "Splitting a text at a tag returns the parts between the leftmost, non-overlapping occurrences of the whole tag (no part for an empty text, the text itself for an empty tag), so that joining them by the tag gives the text back; replacing exchanges exactly those occurrences for the new value and does nothing for an empty old value; trimming removes exactly the leading characters asked for; upper and lower case and comparing with and without case change and equate ASCII letters only; the edit distance is the least total cost of inserting, replacing and deleting single characters that turns the first word into the second, for every cost and length and with or without case. Combining appends numbers of every width in decimal (reals with 7 and 16 places, booleans as words, i8 as a character), strings, other combined strings, lists as [a, b] and maps as lines of key:value, and leaves what it appends untouched.",
     ["inputs"], "every text, tag, character, pair of words and costs, and every value of every type", "The tests look at four splits and seven numbers.",
     ["basicsys/src/sys_strhelper.cpp", "basicsys/src/sys_strcombine.cpp", "basicsys/include/sys_strcombine.h"],
     [("strings", "sys_strhelper::split, replace, trim_left, levenshtein_distance, equal, upper, lower"), ("combining", "sys_strcombine::operator<<")],
     "Model: for all words of up to 4 (thorough 5) letters and three costs each the definitions agree with independent ones (cheapest script by trying every edit, triangle inequality, joining undoes splitting). " + SN, ["returned strings, parts and numbers"])
prop("S04", "Path functions list and change exactly what they are asked to",
     "File name, title (name without its last extension), extension (lower case, from the last dot of the name), directory path and directory name of a path are its documented parts, with / and \\\\ alike. In a tree of directories, files and links: making a directory makes all missing ones on the way, whatever the length of the path, and fails where a file is in the way; listing returns exactly the files (as names or paths), whose names end with the wanted text if one is given, or exactly the directories with a trailing slash; deleting removes a file, an empty directory, a directory with everything below it, or only what is below it, and never what a link points to or anything else; copying gives the target the content of the source and moving takes the source away, for names with blanks, quotes and dashes, replacing an existing target or failing as asked, and a failing call changes nothing.",
     ["inputs", "histories"], "every tree and every sequence of these calls", "No test touches the path functions; they delete and overwrite files.",
     ["basicsys/src/sys_path.cpp", "basicsys/include/sys_path.h"],
     [("names", "sys_path::get_file_name, get_file_title, get_file_extend_name, get_dir_path, get_dir_name, is_dir"), ("tree", "sys_path::create_multi_dir, get_file_path, delete_file, delete_dir, delete_sub_dir, copy_file, move_file, is_exist")],
     "Model: every session on a tree of two names and two levels (well-formed tree, removal takes only what is below, copying and moving keep directories). " + SN + " The driver runs as an unprivileged user with the removing calls replaced by ones that refuse paths outside its scratch directory; the whole tree is compared after every call.", ["answers and the whole tree"])
prop("L01", "Loggers print every wanted message whole, once and in order",
     "A message at an enabled level whose tag is not filtered is printed once, as [level] [time UTC zone] <tag> in line n of <file> (its name or the whole path, as chosen), then the message and a line end, with the local time in the chosen format and the difference of the zone to UTC; nothing is printed for a disabled level, a filtered tag, a condition that holds, or without a logger. Levels are asked and filters set, added and read back as given; a new logger starts with all levels and no filter. Texts over 5000 characters are handed on in pieces of 5000. The console loggers show every byte, also those outside ASCII. The file logger writes into its folder, also after that was changed, starts a new file when the current one has taken its number of logs, removes its own oldest files so that no more than the given number of them is there, and overwrites or touches no other; what is left is the newest of what was printed, in order; changed limits hold from the next log on; a folder that cannot be written loses the logs and nothing else. Threads that print at the same time leave whole messages, each thread's in its order.",
     ["inputs", "histories", "schedules"], "every session of creating, configuring and using loggers, from one and several threads", "The tests use the logger to report failures and never look at what it prints.",
     ["basiclog/src/basiclog.cpp", "basiclog/include/basiclog.h"],
     [("printing", "log_logger::print, format_timestamp, the basiclog_ macros"), ("files", "log_file_logger::print, set_dir, set_max_file_number, set_file_max_log_number"), ("levels and filters", "log_logger::enable_*, set_filter, add_filter")],
     "Model: every session of a file logger with limits up to 3 that change, over two folders and one that cannot be written (what is left is a suffix of what was printed; limits hold; other files stay). " + SN + " The driver runs as an unprivileged user in a scratch folder.", ["pieces printed, standard output, all files"])
prop("S05", "Counters, timers and testers report exactly what happened",
     "While an algorithm analyzer is in use, setting, adding to and raising a counter from any number of threads loses no update: the report on release has every tag with exactly the value those calls give, in 64 bits, and the next use starts with none; out of use the calls do nothing. A timer adds up the whole milliseconds between each begin and end, counts its begins, starts over on reset, and says its name, cost and count at the level asked for, by itself when it goes if asked to; the tick count is the time in milliseconds. A silent tester counts the conditions that held and all of them and says both when it goes; an asserting one reports each failure as an error at once and nothing else.",
     ["inputs", "histories", "schedules"], "every session and every interleaving of counting threads", "No test looks at these numbers or counts from several threads.",
     ["basicsys/src/sys_alg_analyzer.cpp", "basicsys/src/sys_timer.cpp", "basicsys/src/sys_tester.cpp", "basicsys/include/sys_tester.h"],
     [("counters", "sys_alg_analyzer::set, add, max_, init, release"), ("timers", "sys_timer::begin, end, out, get_tick_cout"), ("tester", "sys_tester::add_case_condition, sys_test, sys_test_equal")],
     "Model: three threads that find and then change counters under the lock, step by step, end with the values of the specification for every schedule. " + SN + " The clock is the driver's.", ["reports, messages, answers"])
