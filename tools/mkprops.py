#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the source of truth for the list is here).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

HANDLER="template/template_handler.go"
prop("C01","User content survives any crash or I/O failure",
 "At every instant of a run - whatever I/O operation fails and wherever the process is killed - the original content of every file that existed in the source tree (files standing at the result path of a template excepted: they are previous results, replaced by the new one) is still stored somewhere the user can find it: at its own path, under its .original name or, for a template consumed by overwrite mode or a file replaced in place on request, as the complete rendering that replaces it. A template file is removed only after its complete rendering is stored, and files that are not processed are never altered or removed.",
 ["crash_points","fault_sequences","inputs","configurations"],
 "every system call index of a run x {kill before, after, in the middle of a write; EIO, ENOSPC, EACCES, EROFS, EDQUOT, short and torn writes, full disk}, over generated trees and flag combinations (overwrite, generated, target, print, plain files, patterns)",
 "Unit tests run on a healthy disk and never stop half way; the order rename/write/remove only matters when an operation in between fails or the process dies.",
 [HANDLER,"main.go"],
 [("rename to .original before writing a non-template result","template/template_handler.go processTemplate"),("template removed after the result was written","template/template_handler.go processTemplate")],
 [dict(name=".original file",meaning="copy of the user's file before in-place rendering",where=HANDLER)],
 ["file system after the run or at the kill point"])
prop("C02","Success is honest: exit 0 means every output is complete",
 "When a run reports success, every selected template's rendering is completely and exactly stored at its documented path (or completely written to standard output when asked), with the documented name and mode. If any operation needed to deliver an output fails - including writes to standard output and errors reported only at close - the run reports failure and a non-zero exit code.",
 ["fault_sequences","inputs","configurations"],
 "single and multiple injected failures at every file and stream operation after selection (open, write, short write, close, mkdir, rename, stat, read, stdout), over generated trees, flags and context values",
 "Tests compare outputs of successful runs only; no test lets a write, a close or standard output fail, nor relates the exit code to what reached the disk.",
 [HANDLER,"template/template_process.go","main.go"],
 [("errors of os.WriteFile returned","template/template_handler.go processTemplate"),("errors aggregated and exit code set","main.go runGotemplate"),("result printing","template/template_process.go printResult")],
 [],["exit code","stdout bytes","files written"])
prop("C03","One failing template never spoils the others",
 "In a batch, a template that fails (syntax or execution error, unreadable source, failed write of its own output) is reported, naming it or the file or folder of its that failed, and makes the run fail, but every other template is processed exactly as if the failing one had succeeded, whatever its position. The failure never surfaces as an uncontrolled abort of the run.",
 ["fault_sequences","histories","inputs"],
 "batches of up to a dozen templates with failing members at any position, failures being template errors and/or injected I/O faults on the files of one member",
 "Tests process one failing template at a time; isolation between members under I/O errors depends on which operation fails and how the error travels.",
 [HANDLER,"template/template_error_handler.go","main.go"],
 [("per template error accumulation","template/template_handler.go ProcessTemplatesWithHandler"),("recover at top level","main.go runGotemplate")],
 [],["files of the other members","exit code","stderr"])
prop("C04","An interrupted run followed by a clean re-run converges",
 "If a run whose sources are template files, or whose target folder differs from its source folder, is killed at any point or fails because of a transient I/O error, running the same command again without fault completes successfully and leaves exactly the files that a single undisturbed run leaves.",
 ["crash_points","fault_sequences","histories"],
 "kill at every operation index, or one to three transient faults, followed by one fault-free re-run (and by a second interrupted run before it), compared with the undisturbed run",
 "No test restarts after an interruption; leftovers of a partial run (partial outputs, consumed templates, directories) only exist under crashes.",
 [HANDLER,"main.go","utils/io.go"],
 [("idempotent target naming","template/template_handler.go processTemplate"),("template removed last","template/template_handler.go processTemplate")],
 [],["final tree, exit code of the re-run"])
prop("C05","A run touches nothing but its announced outputs",
 "A run creates, modifies, renames or removes only: the documented result path of each selected template, the .original backup and replaced source in in-place mode, the removed template in overwrite mode, folders needed under the target, files named by the template's own save calls, a requested log file, and private temporary files. With a distinct target the source tree is never modified, with print no result file is written, and a plain file whose rendering does not change it, or which failed with an ignorable error, is left untouched.",
 ["inputs","configurations","fault_sequences"],
 "every mutating system call of every run (fault-free and with injected faults or kills) checked against the allowed set derived from the command line and the tree",
 "Tests look at the files they expect; they cannot notice extra writes, transient modifications or what error paths touch.",
 [HANDLER,"template/template_process.go","main.go"],
 [("unchanged results not written","template/template_handler.go processTemplate"),("print mode returns before writing","template/template_handler.go processTemplate"),("ignored errors leave the file unchanged","template/template_handler.go processContentInternal")],
 [],["trace of mutating system calls"])
prop("C06","Temporary files and descriptors never outlive the work",
 "Whenever the program ends by itself (success, error, help, version, usage error, exit requested by a template) no temporary file or folder it created remains, and when a library call returns, no file descriptor or temporary script it opened is left behind, whatever failed in between (unless removing the temporary file itself was what failed).",
 ["fault_sequences","inputs","histories"],
 "every exit path, with injected failures at each operation on the temporary files, scripts, pipes and child processes",
 "Tests do not inspect the temporary folder nor descriptors and never fail a temporary write.",
 ["main.go","utilities.go","utils/exec.go","template/extra_runtime.go","template/template_handler.go"],
 [("deferred cleanup","main.go runGotemplate / utilities.go cleanup"),("deferred removal of the command script","template/extra_runtime.go run"),("temporary script","utils/exec.go saveTempFile")],
 [dict(name="temporary folder",meaning="scratch folder of a run",where="main.go")],["temporary folder after exit","open descriptors after each call"])
prop("C07","Command results are complete or reported as errors",
 "The value returned to a template by run, exec or an alias of them is the complete standard output of a command that was started and ended with status 0 (converted for exec). If it cannot be started, ends with another status or a signal, or its output cannot be collected, rendering fails with an error that includes what it wrote on standard error, and no truncated or empty output is rendered as if valid.",
 ["fault_sequences","inputs"],
 "commands given as words, scripts, script files and multi-line shebang scripts, with arguments; faults: fork failures, non-zero exits, kills by signal after partial output, pipe read errors and short reads, temporary script creation and write failures",
 "Tests run a few well behaved echo commands on the host shell; partial outputs, signals and pipe errors are never produced.",
 ["template/extra_runtime.go","utils/exec.go"],
 [("command run and error wrapping","template/extra_runtime.go run"),("command construction","utils/exec.go GetCommandFromString/GetCommandFromFile")],
 [],["rendered output","error"])
prop("C08","Existing inputs that cannot be read are never silently dropped",
 "An input file that exists but cannot be read (imported variables, file given as variable value, extension, included or aliased template, script) makes the run fail with a non-zero exit and no output built as if that input did not exist or as if its name were its content. Only inputs that really do not exist are treated as missing, according to the ignore-missing options.",
 ["fault_sequences","configurations"],
 "every input kind x every operation reading it (open, fstat, read, second read, close) x {EIO, EACCES, EMFILE, ENFILE, ESTALE, ENOMEM} x ignore-missing options",
 "Tests only use readable or missing files, so a permission or device error that is mistaken for a missing file is never produced.",
 ["context.go","collections/data.go","template/template.go","template/extra_runtime.go"],
 [("variable loading","context.go createContext"),("extension loading","template/template.go initExtension"),("include and alias file loading","template/extra_runtime.go optimizedRunTemplate")],
 [],["exit code","rendered output"])
prop("C09","Standard input is consumed whole or the run fails",
 "However standard input is delivered - any chunking, interruptions, pauses, as pipe or file - a run reading its template and/or variables from it behaves exactly as if all bytes had been available at once, and they are read only once. If reading fails before the end, the run fails, and nothing is rendered from the part already received.",
 ["schedules","fault_sequences","inputs"],
 "delivery schedules (chunk sizes from one byte, EINTR and short reads at any read), read errors after any prefix, combined with --stdin, --import -, --var name=-",
 "Tests feed standard input in one write from memory and never interrupt or fail it.",
 ["utilities.go","context.go","main.go"],
 [("single cached read","utilities.go readStdin"),("variables from stdin","context.go createContext")],
 [dict(name="stdinContent",meaning="cached standard input",where="utilities.go")],["stdout","exit code"])
prop("C10","Files saved and loaded by templates are faithful",
 "A template's save stores exactly the text or bytes given, replacing any previous content and creating the parent folder when only it is missing (a save anywhere else fails), and load returns exactly the current bytes of the file; a sequence of saves and loads in one rendering behaves like a map from path to content. If any operation fails the template fails; a load never returns truncated content and a save that did not store everything is never reported as successful.",
 ["histories","fault_sequences","inputs"],
 "random sequences of save/load/exists/size/glob in a template against a map model, with injected I/O faults, short and torn transfers and full disk",
 "Tests save and load one small file on a healthy disk.",
 ["template/extra_os.go"],
 [("save","template/extra_os.go saveToFile"),("load","template/extra_os.go loadFromFile")],
 [],["rendered output","files","error"])
prop("C11","Output does not depend on incidental nondeterminism",
 "Two runs with the same command, environment and files give byte-identical results, output and exit code, whatever the iteration order of maps, the order in which the system lists directories, the current time, the random names of temporary files and the short transfers the system chooses. Only functions documented as random or time dependent are exempt.",
 ["schedules","configurations","inputs"],
 "the same workload executed under many seeds of hash/iteration order, directory order, clock, temporary names and I/O chunking, over a corpus covering serialisation, merging, key listing, imports, aliases, help and function listing, command execution",
 "A test executes one arbitrary order per run and passes on the common one; map order bugs appear only for some seeds.",
 ["collections/dict.go","collections/implementation/dict.go","hcl","json","yaml","template/func_table.go","template/template_help.go","context.go"],
 [("sorted keys","collections/implementation/dict.go"),("sorted function lists","template/func_table.go")],
 [],["stdout","files","exit code"])
prop("C12","Independent templates can be processed concurrently",
 "Independent Template instances created and processed by different goroutines of one process produce the same results as when processed one after the other, under every interleaving, without data race, deadlock or crash.",
 ["schedules"],
 "seeded schedules of two to six goroutines creating and processing templates, switching at lock operations, system calls and instrumented statements, under the race detector",
 "No test processes templates concurrently; interleavings and races on package level tables are invisible to sequential tests.",
 ["template/template.go","template/razor.go","template/func_table.go","collections","utils/exec.go"],
 [("templateMutex, addFuncMutex","template/template.go, template/func_table.go"),("list and dictionary helper registries","collections")],
 [dict(name="package level tables",meaning="function tables, razor expressions, helpers, default shell",where="template, collections, utils")],["results","race reports"],
 "yield points are inserted in copies of the sources by the build overlay; nothing is added to /repo")
prop("C13","Processing one template leaves no trace on the next ones",
 "Processing a template - successfully, with an error, or interrupted by an I/O failure - never changes what a later template of the same instance or batch sees: context variables, nested values, options, delimiters, missing-value handling and error state are the same as if it had been processed first. Only documented definitions (aliases, functions and named templates) persist.",
 ["histories","fault_sequences"],
 "sequences of templates mutating variables, nested dictionaries and lists, options (print shebang), failing inside includes, functions and runs, compared with each template processed alone in a fresh process",
 "Tests create a fresh instance for almost every case; order dependent leaks need a history and often an error in the middle.",
 ["template/template_handler.go","template/extra_runtime.go","template/template.go","collections/implementation"],
 [("context cloned per template","template/template_handler.go processContentInternal"),("context restored on exit","template/extra_runtime.go optimizedRunTemplate"),("print option restored","template/template_handler.go ProcessTemplatesWithHandler")],
 [],["results of later templates"])
prop("C14","HTTP functions return the whole document or fail",
 "httpGet and httpDoc give the template the complete response body exactly as sent by the server, however it is split in transit; a refused or reset connection, an unknown host, or a body cut before its announced end makes rendering fail. httpDoc releases its connection in every case.",
 ["schedules","fault_sequences","inputs"],
 "simulated servers (content-length and chunked bodies, redirects, error statuses) under arbitrary segmentation, pauses of any length, connection refusals, resets and early closes after any byte count",
 "There is no network test at all.",
 ["template/extra_net.go"],
 [("http get","template/extra_net.go httpGet"),("document parsing","template/extra_net.go httpDocument")],
 [],["rendered output","error","open connections"])
prop("C15","Custom handlers see and decide every result exactly once",
 "A handler supplied by an API user is called exactly once per template whose content could be read, in order, with the template's name, its original content, its rendered result, whether it changed and its error status; the result and error it leaves are exactly what is stored and reported, and the result is stored whenever rendering or the handler says that it changed. This holds whichever templates fail and whatever I/O fails before or after the call.",
 ["histories","fault_sequences","inputs"],
 "batches with handlers that observe, modify, veto (error) or rescue (clear the error of) results, with template errors and injected I/O faults",
 "One existing test, at most, passes a handler; contracts over failing batches are not covered.",
 ["template/template_handler.go"],
 [("deferred handler call","template/template_handler.go processContentInternal")],
 [],["handler call log","files"])
prop("C16","Templates present throughout are found exactly once",
 "A recursive run processes, exactly once, every file matching its patterns within the requested depth and not excluded, for every directory listing order; files and folders that other programs create, remove or rename elsewhere in the tree during the search never hide a template that is present throughout nor abort its processing.",
 ["schedules","inputs","configurations"],
 "generated trees, depths, patterns, exclusions and symbolic links; an external actor mutating unrelated parts of the tree at any system call of the discovery",
 "Tests walk a quiet, fixed tree; disappearance between listing and examining an entry is a race.",
 ["utils/io.go","main.go","utilities.go"],
 [("folder walk","utils/io.go FindFilesMaxDepth"),("exclusions","utilities.go exclude")],
 [],["set of processed templates"])
prop("C17","Logging failures never change results",
 "When the verbose log file cannot be created, opened or written, or standard error cannot be written, at any point of a run, the files produced, the standard output and the exit code are the same as without the failure. Logging options themselves never change results.",
 ["fault_sequences","configurations"],
 "every log level combination x faults on every operation of the log file and of standard error (ENOSPC, EIO, EACCES, short writes)",
 "Tests do not use the log file and never fail a log write.",
 ["main.go","template/extra_logging.go"],
 [("log hooks","main.go runGotemplate")],
 [],["files","stdout","exit code"])
prop("C18","Terraform formatting failures stay local and are reported",
 "After a run that produced terraform files, every folder that received one has been formatted (to the formatter's fixed point of two passes), independently of failures in other folders and of their order. A failing formatter never destroys or alters the generated content beyond what the formatter did, never aborts the run uncontrolled, and never touches folders that received no terraform file.",
 ["fault_sequences","inputs","schedules"],
 "several folders, valid and invalid terraform files, formatter failing to start, exiting non-zero or killed at first or second pass in any folder, every folder order",
 "The only test calls the real terraform binary when it is installed, on one folder.",
 ["utils/terraform.go","main.go","template/template_handler.go"],
 [("two pass formatting per folder","utils/terraform.go TerraformFormat")],
 [],["terraform files","exit status"])
prop("C19","Every run ends in bounded work",
 "Whatever finite sequence of interruptions, transient errors, short transfers and template errors occurs, a run or library call terminates within a number of operations proportional to its undisturbed work, with a definite exit status; it never loops, never deadlocks and never dies from an unrecovered panic or runtime fault.",
 ["fault_sequences","inputs"],
 "fault bursts (EINTR storms, persistent EIO/ENOSPC/EMFILE from any point on, short transfers of one byte), erroneous templates exercising the automatic error recovery, recursive includes bounded by the template",
 "Tests do not inject faults, and their timeouts cannot tell slow from endless.",
 ["template/template_error_handler.go","template/template_handler.go","utils/exec.go","utilities.go"],
 [("bounded retries","template/template_error_handler.go"),("recover at top level","main.go runGotemplate")],
 [],["number of operations","exit status"])

prop("C20","File queries tell the truth or fail",
 "Whenever a template asks about the world outside (exists, size, mode, isDir, isFile, isReadable, isWriteable, isExecutable, lastMod, stat, glob, lookPath, currentBranch, currentCommit, origin), the answer is the state at the moment of that call, links followed: changes made earlier in the same run by save or by a command are seen, nothing is remembered from a previous question. A missing path makes exists false and the others fail; glob returns exactly the existing matches, in order, and keeps unmatched names; the git functions give the checked out branch in full, the commit and the URL of the remote named origin of the repository holding the path, or fail. A file or a repository which cannot be examined makes the rendering fail, it is never answered with a made-up value.",
 ["fault_sequences","histories","inputs"],
 "trees with files, folders, links and git repositories in several states, sequences of questions interleaved with changes made by the template itself, failures of the system call that determines an answer",
 "Tests ask about files that exist and do not change, and never meet a failing system call.",
 ["template/extra_os.go","template/extra_git.go","utils/io.go"],
 [("os.Stat at each call","template/extra_os.go"),("go-git plain open","template/extra_git.go")],
 ["go-git reads the repository"],["rendered answers","exit status","stderr"])

prop("C21","An exit requested by a template is immediate and clean",
 "When a template asks to exit with a status (exit, or fatal with status 1), the run ends right there with that status: the results of the templates processed before are stored or printed completely, as are the files already saved by templates; the exiting template and the ones that follow produce nothing and their sources are left untouched; nothing temporary remains. This stays true when the exit comes from included code, from a loop, from code given as argument or on the standard input, and whatever failed before.",
 ["fault_sequences","inputs"],
 "batches in every mode (print, target, in place, recursive, terraform) where any of the templates asks to exit, with system call failures at any point before and during the exit",
 "Tests cannot exit their own process and never combine an exit with a batch or a failure.",
 ["main.go","template/extra_runtime.go","template/extra_logging.go","template/template_handler.go"],
 [("exit","template/extra_runtime.go"),("cleanup at exit","main.go runGotemplate")],
 [],["exit status","file system","stdout"])

prop("C22","Runs at the same time do not disturb each other",
 "Several gotemplate processes may run at the same time, sharing source folders, the folder of temporary files and the folders in which they store their results, as long as the files they produce are distinct: each one produces the same files, standard output and exit status as if it were alone, whatever the interleaving of their operations, and even when another one fails or is killed at any point. Once all of them have ended by themselves, nothing else was added, changed or removed.",
 ["schedules","fault_sequences","crash_points"],
 "two runs over different sources, over the same sources with different targets, or over different templates of the same folders, some of them running scripts and saving files in the same new folders, interleaved at arbitrary operations, the first one possibly failing or killed",
 "Tests run one process at a time; a collision needs two of them at precise points.",
 ["main.go","utils/exec.go","template/template_handler.go","template/extra_os.go","template/template_process.go"],
 [("temporary files","main.go, utils/exec.go, template/template_process.go"),("creation of folders","template/template_handler.go, template/extra_os.go")],
 ["files","standard output","exit status"])

pure="No schedule, clock, fault or concurrency takes part: a pure function of its input, settled by example, property-based or fuzz testing, not by deterministic simulation."
NA=[]
def na(id,title,st,files,mech):
    prop(id,title,st,["inputs"],"all inputs of the function","Tests sample a handful of inputs.",files,[(m,w) for m,w in mech])
    NA.append(dict(property=id,reason=pure))
na("C30","Serialisation round trips","For every value, converting to JSON, YAML or HCL and parsing back gives an equal value.",["json","yaml","hcl","xml"],[("marshal/unmarshal","json, yaml, hcl")])
na("C31","Razor translation preserves text","Razor conversion translates every documented construct to the equivalent template action, and leaves e-mail addresses, escaped @@ and other literal text untouched.",["template/razor.go","template/razor_expr.go"],[("regular expression rewriting","template/razor.go")])
na("C32","Collection operations do not mutate operands","List and dictionary operations documented as returning new values (append, merge, omit, pick, reverse, unique...) leave their operands unchanged.",["collections/implementation"],[("clone before change","collections/implementation")])
na("C33","Merge precedence","Merging dictionaries gives priority to the leftmost operand at every depth, and imports given later on the command line override earlier ones.",["collections/implementation/dict.go","context.go"],[("merge","collections/implementation/dict.go")])
na("C34","Math and bit functions","Arithmetic functions agree with exact arithmetic within their documented domains, for scalars and lists.",["template/extra_math.go","template/math_base.go"],[("processFloat","template/math_utilities.go")])
na("C35","String utilities","Wrap, indent, center, word and line functions preserve the words of their operand and their documented layout.",["collections/string.go","utils/substitute.go"],[("String","collections/string.go")])
na("C36","Substitutions apply in order","Regex substitutions given by option or environment are applied in order, before and after rendering, as documented.",["utils/substitute.go","template/template_handler.go"],[("InitReplacers","utils/substitute.go")])
na("C37","Delimiters and pause directives","Text between pause and resume directives is rendered verbatim, and custom delimiters behave like default ones.",["template/template_handler.go"],[("pause replacement","template/template_handler.go")])
na("C38","Error handler reports every error","The automatic error recovery reports each distinct template error with its file and original line.",["template/template_error_handler.go"],[("Handler","template/template_error_handler.go")])
na("C39","Help covers every function","Every registered function and alias appears in the listing with its signature and category.",["template/template_help.go","template/func_table.go"],[("PrintFunctions","template/template_help.go")])
if __name__=="__main__":
    open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
    json.dump(NA,open("/verif/tools/not_applicable.json","w"),indent=1)
