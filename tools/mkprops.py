#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the texts are easy to edit).
import json
VC="include/sharg/detail/version_check.hpp"; PA="include/sharg/parser.hpp"; VA="include/sharg/validators.hpp"
SF="include/sharg/detail/safe_filesystem_entry.hpp"; TE="include/sharg/detail/terminal.hpp"
FP="include/sharg/detail/format_parse.hpp"; FH="include/sharg/detail/format_help.hpp"; FB="include/sharg/detail/format_base.hpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=list(state),mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("U01","Update requests happen only with consent",
 "An application contacts the update server only if its developer left update notifications on, SHARG_NO_VERSION_CHECK is not set, and the user consented: by --version-check true on this run, or, when the option is absent, by having answered 'always' earlier (and not 'never' since) or by answering 'always' or 'yes' to the question of this very run. One program run issues at most one request, and a consented run that parses an ordinary command line and destroys its parser issues exactly one if a download program is available and storage works. No stored file that is missing, corrupt, torn by a crash, or written by a different application counts as consent.",
 ["histories","crash_points","fault_sequences","schedules","configurations"],
 "all histories of program runs (several apps, debug and release builds, tty or not, every answer, option and environment setting), every crash point, storage fault, clock value and interleaving of concurrently running processes",
 "The unit tests run one process with a fresh HOME and no terminal; they never answer the question, never crash, never share state between runs, and cannot observe the request itself offline.",
 [VC,PA],[("decision ladder","version_checker::decide_if_check_is_performed"),("option parsing","parser::determine_format_and_subcommand"),("sub-parsers are built with notifications off","parser::determine_format_and_subcommand")],
 ["shell commands the process runs","reads of standard input"],[dict(name="timestamp file",meaning="time of the last question and the stored decision",where="<name>_usr.timestamp / <name>_dev.timestamp")])
p("U02","At most one unsolicited question or request per app and day",
 "While storage works and the clock does not run backwards, the update machinery of one application asks the user or contacts the server without being told to on the command line at most once per 24 hours over successive runs, including when the stored decision is 'always' and when runs crash after asking. After 24 hours without a due run (one that asked, could not ask for lack of a terminal, or requested), the next interactive run without a stored decision asks again, and the next run under 'always' requests again.",
 ["histories","crash_points","configurations"],
 "all sequences of runs of one app at arbitrary simulated times, with crashes at arbitrary points, answers and explicit options interleaved",
 "Tests use the real clock and a single run; the day boundary, sequences of runs, answers and the stored 'always' decision over several days are unreachable for them.",
 [VC],[("timestamp written before asking","version_checker::write_cookie"),("86400 s comparison","version_checker::get_time_diff_to_current, decide_if_check_is_performed")],
 ["shell commands","reads of standard input","simulated clock"])
p("U03","A stored update decision is durable and honoured",
 "Once the user has answered 'never' (or 'always') and the question has been dealt with without a storage error, every later run of that application without an explicit option follows it without asking again: 'never' never contacts the server, 'always' keeps doing so. While runs of the same application do not overlap, neither explicit --version-check options, opt-out settings, other applications' runs, crashes at any point of later runs, nor storage errors in later runs change or lose the decision.",
 ["histories","crash_points","fault_sequences"],
 "all histories of later non-overlapping runs, with process crashes between any two system calls and torn writes, injected storage errors, explicit options and opt-outs interleaved",
 "No test answers the question, runs the app twice with the same stored decision at different dates, or crashes a run.",
 [VC],[("NEVER/ALWAYS lines win over asking","version_checker::decide_if_check_is_performed"),("cookie overwrite only on an answer","version_checker::write_cookie")],
 ["timestamp file","shell commands","reads of standard input"])
p("U04","Opting out leaves no trace",
 "If the developer switched update notifications off, SHARG_NO_VERSION_CHECK is set to any value (also the empty string), or the run was given --version-check false, parsing starts no request and no helper program, asks nothing, prints no notice, and leaves the file system exactly as it found it: no file or directory is created, removed or changed, not even for a moment, whatever the state directory contains.",
 ["histories","configurations","fault_sequences","crash_points"],
 "all pre-existing states of the state directory and its fallbacks, all environments, storage faults and crash points",
 "Tests check two file names in a fresh directory; they do not look at other files, commands or pre-existing content, and never inject a fault.",
 [VC,PA],[("early returns","version_checker::decide_if_check_is_performed"),("writability probe","version_checker::get_path")],["whole simulated file system before/after","shell commands","stderr","stdin"])
p("U05","Update machinery never changes what parsing does",
 "Whatever the environment (HOME or TMPDIR unset, empty, missing, unwritable or oddly named), the state files' content, the storage errors, missing helper programs or failing process and thread creation, parsing has the same outcome as with update notifications off in a healthy environment: the same values, the same exception type and message or none, the same standard output and exit status, and no termination by signal; standard input that is not a terminal is left alone, and of one that is, nothing but the line with the answer is consumed: what the program reads from std::cin afterwards is all the rest.",
 ["configurations","fault_sequences","inputs","histories"],
 "all environments, state-file contents and fault sequences hitting the update machinery, for every parser configuration and command line of the workload (options, flags, positionals, subcommands, help/version pages, user errors)",
 "The tests set HOME to a good directory before each case; no test injects a failing call or a hostile environment.",
 [VC,PA,SF],[("error_code overloads and is_open checks","version_checker::get_path, write_cookie"),("thread start","version_checker::operator()"),("run_version_check","parser::run_version_check")],["results, exceptions, stdout, exit status of the process"])
p("U06","Programs never wait for the update server beyond the 3 s grace",
 "Parsing never waits for the network: it returns while a request is still in flight, however slow or dead the server. Destroying the parser waits at most 3 seconds (less if the request finishes earlier) regardless of clock changes, and afterwards the program can terminate at once with no deadlock and no crash, in every interleaving of the background request with the program's own work.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of the background thread with main, all request durations (immediate, slow, never) and outcomes, wall-clock jumps in either direction, program exit at any point",
 "Tests run offline where the request fails at once and synchronise with future.get(); no hanging server, clock change or exit race is ever exercised.",
 [VC,PA],[("detached thread and promise","version_checker::operator(), call_server"),("bounded wait","parser::~parser wait_for(3s)")],["simulated time spent in parse, in the destructor and until exit","blocked threads"])
p("U07","Update notices are truthful and go to standard error only",
 "A notice is printed only when a check is performed, only on standard error, and says what the stored server answer says: a release build announces a new application version iff the stored application version is greater than the running one; a debug build asks to register iff the stored answer is 'unregistered', announces a newer Sharg iff the stored Sharg version is greater, and reports an outdated registration iff the stored application version is smaller. Versions compare numerically, 0.0.0 counts as no version, and a version line that is missing, malformed, or cut short so that it is no version, yields no version notice. What counts is the stored answer at the moment it is read (if the download of another run replaces it in that very moment, the beginning of the old one and the rest of the new one).",
 ["inputs","histories","crash_points","schedules","fault_sequences"],
 "all version-file contents left by earlier, interrupted, corrupted or concurrently running downloads, all application versions, read errors",
 "Tests cover a handful of well-formed version files; torn, concurrent or failing reads and whole histories download -> notice are not reachable.",
 [VC],[("version comparison","version_checker::operator()"),("strict version syntax","version_checker::get_numbers_from_version_string")],["stderr, stdout","<name>.version file"])
p("U08","Helper commands are confined to the documented request",
 "Every command the library passes to the shell is a probe for a download program or one download of the official check URL made of the application name, a plain x.y.z version and platform only, into that application's own version file in the state directory; a shell reads it as exactly that for any HOME or TMPDIR path, application version or URL string. An invalid application or subcommand name is rejected before any command runs or any file is touched.",
 ["inputs","configurations","histories"],
 "all home/tmp directory names (spaces, quotes, $, newlines, ...), application versions, names and histories",
 "Tests cannot see the command (the shell is real and offline) and use a well-behaved temporary HOME.",
 [VC,PA],[("fixed command prefix","version_checker::get_program"),("name check","parser::verify_app_and_subcommand_names"),("version check","version_checker constructor regex")],["commands passed to the shell"])
p("U09","The update machinery writes only its own state files",
 "Whatever program runs do, including failing calls and crashes, the only lasting changes that the update machinery makes to the file system are: the running application's own timestamp file, which always is either what it was or a complete new one; its own version file, if this run issued a request; and the directories .config and .config/seqan in HOME. Both files lie in .config/seqan in HOME if that directory is usable and only otherwise in the temporary directory. Every other entry, whatever its name, keeps its type, content and permissions, and nothing temporary is left behind nor any descriptor open when the program ends normally and the operating system let it remove its own files.",
 ["histories","fault_sequences","crash_points","configurations","schedules"],
 "all histories of runs of several applications, also simultaneous ones, in all environments and states of the state directory (also entries with the names the library uses for a moment), with storage faults and crashes at any point",
 "Tests look at two file names in a fresh directory after one fault-free run.",
 [VC],[("probe and place of the state","version_checker::get_path"),("replacement of the cookie","version_checker::write_cookie"),("file names","version_checker constructor, operator()")],["whole simulated file system before/after each step","descriptor table"],[dict(name="state directory",meaning="timestamp and version files of all applications",where="HOME/.config/seqan or the temporary directory")])
p("F01","Rejected or probing validation destroys nothing",
 "A file or directory validation that rejects a path leaves every existing file system entry unchanged in content, type and permissions, whatever made it reject (wrong extension, existing file, missing permission, I/O error). An accepted validation removes or changes nothing either, except that an output file validator that allows overwriting may remove or empty the existing regular file named by an acceptable path (also while it is interrupted, or when a later element of the same list is rejected); devices, pipes, links and any other file, including any the validator happens to use as probe name, survive.",
 ["inputs","fault_sequences","configurations"],
 "all path kinds and file system states (permissions, owners, links, devices, existing probe names), all validators and modes, every injected system-call failure",
 "Tests run as root in fresh temporary directories with no failing system call, and look only at the named path.",
 [VA,SF],[("order of checks","output_file_validator::operator()"),("probe and guard","file_validator_base::validate_writeability, output_directory_validator::operator()"),("guard removal","safe_filesystem_entry")],["whole simulated file system before/after"])
p("F02","Validation leaves nothing behind",
 "After a file or directory validation finished, accepted or rejected, no file or directory exists that did not exist before and no file descriptor stays open, as long as the operating system lets the validator remove its own entries.",
 ["inputs","fault_sequences","configurations"],
 "all path kinds and file system states, all validators, every injected system-call failure other than failing removal, allocation failure or crash",
 "Tests look at single paths in fault-free runs only.",
 [VA,SF],[("RAII guard","safe_filesystem_entry"),("probe removal","validate_writeability, output_directory_validator")],["simulated file system before/after","descriptor table"])
p("F03","File validators accept exactly what their contract says",
 "Without concurrent changes a validator accepts a path iff its contract holds under the permissions of the calling user: input file = existing, readable regular file with allowed extension; output file = not a directory, creatable or writable, allowed extension, and not existing in create-new mode; input directory = existing readable directory; output directory = existing or creatable, writable directory. Under an injected I/O failure it never accepts a path whose required access was refused.",
 ["inputs","configurations","fault_sequences"],
 "all file system states reachable by the generator (kinds, owners, modes, links, read-only and full file systems), users, validators and path spellings, with and without I/O failures",
 "Tests run as root (permission tests are skipped) with a dozen paths and no failing call.",
 [VA],[("readability/writeability probes","file_validator_base"),("extension check","file_validator_base::validate_filename")],["accept/reject against an executable reference model"])
p("F04","Every file system failure surfaces as a validation error",
 "Whatever system call fails during a file or directory validation, the validator reports it by throwing sharg::validation_error (and a parser by throwing it from parse), or accepts if the failure did not matter; no other exception escapes, the program is never terminated, and no descriptor is leaked.",
 ["fault_sequences","inputs","configurations"],
 "every system call of every validation failing with every plausible errno, alone and in sequences, in debug and release builds",
 "The catch blocks are excluded from coverage in the source because tests cannot make the calls fail.",
 [VA,SF],[("catch and nest","operator() of the four validators"),("no-throw guard","safe_filesystem_entry destructor"),("wrapping","format_parse::get_option_by_id and friends")],["exception type, process status"])
p("F05","Concurrent output validation never destroys others' results",
 "When several processes or threads validate the same or nested output directories, or output files in them, while others already write results there, no validation deletes or alters an entry it did not create itself: as long as each uses output file names of its own, everything the others wrote into a shared output directory is still there, in every interleaving. Validations in a directory that exists all the time do not make each other fail.",
 ["schedules","crash_points","histories"],
 "all interleavings at system-call granularity of 2-4 processes that validate and then write into overlapping output directories, with crashes",
 "Tests are single-process; the check-probe-remove window is a few microseconds wide.",
 [VA,SF],[("probe in directory","output_directory_validator::operator()"),("removal of created directory","safe_filesystem_entry")],["simulated file system contents after the run"])
p("P01","Independent parsers do not influence each other",
 "Parsers that share no objects can be constructed, configured, moved, parsed and destroyed in different threads at the same time, handed over between threads at any of these steps, or used one after the other in one process or inside callbacks (validators) of each other, and each yields exactly the values, exceptions, messages, update notices, update requests and files it yields when it runs alone in a fresh process.",
 ["schedules","histories","programs"],
 "all interleavings (at allocation and system-call granularity) of 2-4 threads and all sequences of parser programs with options, flags, positionals, lists, enumerations, validators, subcommands and user errors",
 "Tests run parsers one at a time in one thread and never compare with a fresh process.",
 [PA,FP,FB,"include/sharg/enumeration_names.hpp",VA],[("no shared mutable state","parser, format_parse, validators, enumeration_names")],["outcome of each parser vs. solo reference run"])
p("P02","Failing allocations and callbacks are contained",
 "If a memory allocation, or a user-supplied validator, fails at any point while a parser is built, configured, parsed or destroyed, the failure surfaces as an exception to the caller: the program is not terminated, no memory is leaked, a parse that nevertheless returns normally has produced the correct values, a help, version, copyright or export page that is printed with exit status 0 is complete, no probe file or directory of a validator is left behind, and a new parser in the same process works as if nothing had happened.",
 ["fault_sequences","programs","inputs"],
 "every allocation index and every validator call of generated parser programs, including repeated failures",
 "Tests never fail an allocation.",
 [PA,FP,FB,FH,"include/sharg/config.hpp"],[("RAII and value semantics","parser and formats"),("exception wrapping","format_parse::get_option_by_id")],["exceptions, live allocation count, process status, follow-up parse"])
p("P03","Help pages do not depend on the state of terminal and streams",
 "Help, version and copyright pages have the same words in the same order for every terminal width (also 0, absurd or failing to be determined, and changing while the page is printed) and exit with status 0; with a terminal as standard output no line of running text is wider than the terminal (clamped to 40..120 columns) unless a single word is, and if standard output is not a terminal the page contains no escape sequences and is wrapped for 80 columns. Short or slow writes do not change the bytes, and printing a page touches no file.",
 ["configurations","fault_sequences","programs"],
 "all terminal sizes and ioctl failures, tty/pipe/file/closed standard streams, short and interrupted writes, for generated parser programs",
 "Tests capture stdout into a file: the terminal branch is never executed and no call fails.",
 [FH,TE,FB],[("width clamp","format_help console_layout_struct"),("tty check","detail::stdout_is_terminal, get_terminal_width")],["stdout bytes, exit status"])
p("P04","Parsing leaves the process as the program set it up",
 "After a parser was built, parsed, possibly asked for updates, validated files and was destroyed, whether it succeeded or threw and whatever call failed meanwhile, the process is as it was before: working directory, file mode mask, environment, C and C++ locales, formatting flags, buffers, exception masks and states of the standard streams (except what reading an answer or a failing device does to them), signal handlers and masks, terminate and new handlers, floating-point rounding, the random number sequence, and the open descriptors.",
 ["fault_sequences","configurations","programs","inputs"],
 "all parser programs and command lines of the workload, file validations and update checks in all environments, with injected failures",
 "Tests compare results only; none looks at process-wide state, and none has a failing call in the middle of an operation.",
 [PA,VA,VC,FP,FH],[("no process-wide side effects","parser, validators, version_checker"),("streams used for output","format_help, version_checker")],["process-wide state compared before and after in the simulated process","descriptor table"])
p("P05","Parsing depends on the command line and the parser alone",
 "What a parse yields - the values and set options, the kind and text of every exception, everything printed, and the exit status - is determined by the declaration of the parser and the command line: environment variables (HOME, COLUMNS, LC_*, POSIXLY_CORRECT, ...), the global C and C++ locales, the working directory, the file mode mask, the date, whether the standard streams are terminals, pipes or closed, parsers used before, the thread, moves of the parser, the contents of uninitialised memory, and failing calls that ask for any of this do not matter. In particular values are parsed, and listed in messages and on pages, in the same notation under every locale. (File validators, update notices and the update settings are excepted: they are about the environment.)",
 ["configurations","histories","programs","fault_sequences"],
 "every parser program and command line in all combinations of environment variables, locales, stream kinds, directories, dates, threads, histories of the process and memory contents, with failing calls",
 "Tests run in one environment, one locale, with fresh memory, and never repeat a parse in other circumstances.",
 [PA,FP,FB,"include/sharg/detail/to_string.hpp",VA],[("conversion","format_parse::parse_option_value"),("notation of values","detail::to_string"),("order of decisions","parser::parse, parser::determine_format_and_subcommand")],["outcome, output and exit status compared between settings"])
p("P06","A page with exit status 0 was printed completely",
 "When a help, version, copyright or export page is requested and writing to standard output fails at any point (full disk, I/O error, closed descriptor or pipe, once or permanently, after any number of bytes, on a terminal, file or pipe), the program does not end with exit status 0 unless every byte of the page was written; short writes lose nothing; and without an error the page is complete and the exit status 0.",
 ["fault_sequences","configurations","programs"],
 "every write of every page failing with every errno, alone, repeatedly and together with short writes, in both build flavours",
 "Tests capture standard output in memory; no write ever fails.",
 [PA,FH,"include/sharg/detail/format_html.hpp","include/sharg/detail/format_man.hpp"],[("exit after a page","parser::parse"),("pages written through std::cout","format_help, format_html, format_man, format_version, format_copyright")],["standard output bytes, exit status"])
NA=[
("G01","Option grammar: values land where the command line says","For every parser specification and every command line written in one of the documented spellings (-k v, -kv, --key v, --key=v, flag groups, --), every option, flag and positional receives exactly the values written for it, in order, and everything else keeps its default.",["inputs","programs"],[FP]),
("G02","Typed conversion accepts exactly the values of the type","A textual value is accepted for an option of arithmetic, boolean, enumeration, string or container type iff it denotes a value of that type in range, and the stored value is that value; otherwise a user input error names it.",["inputs"],[FP]),
("G03","Unknown, duplicate, missing or surplus arguments are reported","Every command line with an unknown option, a non-list option given twice, a missing value, a missing required option or a surplus or missing positional makes parsing throw the documented exception and never silently drops input.",["inputs","programs"],[FP]),
("G04","Design errors are detected","Every invalid parser specification (duplicate identifiers, positional after list, required with default, empty identifiers, calls after parse) is reported as a design error.",["programs"],[PA]),
("G05","Value validators implement their predicate","Range, list, regex and chained validators accept a value iff their documented predicate holds, elementwise for containers.",["inputs"],[VA]),
("G06","Help, HTML and man pages list every visible option exactly once","Each page format contains each non-hidden option, flag, positional and section exactly once with description and default, correctly escaped for the format.",["programs"],[FH,"include/sharg/detail/format_html.hpp","include/sharg/detail/format_man.hpp"]),
("G07","Subcommand routing","A command line whose first non-option word is a declared subcommand is split there: everything before goes to the main parser, everything after to the sub-parser, and an unknown subcommand is an error with suggestions.",["inputs","programs"],[PA]),
]
for id,t,s,over,files in NA:
    p(id,t,s,over,"all parser specifications and command lines","Tests sample a few dozen command lines.",files,[("pure function of the specification and argv",files[0])])
with open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
