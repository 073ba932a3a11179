#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=False)))
CORE = "stuart-core/src/"
CLI = "stuart/src/"

p("C01", "Text outside template tags reaches the output byte for byte",
  "Every character of a page, Markdown template or root template that is not part of a template tag appears in the output unchanged and in order, whatever it is (Unicode, CR/LF, NUL-free control characters, stray braces, backslashes, partial tags). The escape `\\{{` produces the two literal characters `{{` and nothing after it is treated as a tag because of it. Tags may be written with any whitespace inside the braces, between the name and its parenthesis and around arguments, and string arguments may contain any character but the double quote, without changing the result.",
  ["inputs"], "all template texts, tag formattings and escape positions",
  "the existing `escape` test renders one fixed page; the claim is about every text and every tag layout",
  [CORE+"parse/mod.rs", CORE+"parse/parser.rs"],
  [("tokeniser", CORE+"parse/mod.rs parse_html"), ("extract_until/escape", CORE+"parse/parser.rs")],
  ["built output node contents", "saved files"])

p("C02", "Pages compose into their root template through sections",
  "A page's output is its root template with every `insert` replaced by exactly what the page produced between that section's `begin` and `end`; page text outside any section is dropped and sections may nest (an inner section's text also belongs to the outer one). If a page defines a section more than once, in a loop for example, the definition which ends first is the one inserted. If the root template inserts a section the page does not define, the build fails, even when other pages define it.",
  ["inputs", "programs"], "all page/root template pairs with any sequence, nesting and repetition of sections",
  "tests compare one root/page pair; the claim is over all compositions",
  [CORE+"process/mod.rs", CORE+"functions/parsers/begin.rs", CORE+"functions/parsers/end.rs", CORE+"functions/parsers/insert.rs"],
  [("section table", CORE+"functions/parsers/end.rs"), ("insert lookup", CORE+"functions/parsers/insert.rs")],
  ["built output node contents"])

p("C03", "The nearest root.html and md.html templates are the ones used",
  "Every HTML page is rendered into the `root.html` of its own directory or, failing that, of the nearest ancestor that has one, and every Markdown page through the nearest `md.html` and then the nearest `root.html`, each resolved independently and regardless of file order or of templates in sibling and descendant directories. A page with no applicable template fails the build.",
  ["inputs", "configurations"], "all directory trees and placements of templates and pages",
  "existing tests use a single directory with one template of each kind",
  [CORE+"lib.rs"], [("Environment::update_from_children", CORE+"lib.rs"), ("build_node", CORE+"lib.rs")],
  ["built output tree"])

p("C04", "Variables resolve to the innermost definition, or the build fails",
  "A variable tag outputs exactly the string found by following its dotted path (object keys, then array positions) from the innermost enclosing definition of its first component, definitions made by `import` and `for` ending with the block they were made in. If the variable is undefined, null or not a string, or an `import` names something that is not a JSON file or re-defines a variable of the same block, the build fails rather than printing something else.",
  ["inputs", "programs"], "all JSON documents, dotted paths and nestings of definitions",
  "tests cover a handful of paths in one nesting",
  [CORE+"process/mod.rs", CORE+"process/stack.rs", CORE+"functions/parsers/import.rs"],
  [("stack lookup", CORE+"process/mod.rs"), ("get_value", CORE+"process/stack.rs")],
  ["built output", "build error"])

p("C05", "A for loop renders its body once per selected item, in order",
  "A `for` loop over a JSON file, an array variable or a directory of Markdown files renders its body once per item, in source order (any order for an unsorted directory), after applying `sortby` (stable, by string key), then `order`, then `skip`, then `limit`, with the loop variable bound to that item only inside the body. With no item selected the body renders nothing and has no effect; a source that does not exist or is not an array fails the build.",
  ["inputs", "programs"], "all arrays, directories, argument combinations, bodies and nestings, including empty selections",
  "tests cover four fixed loops; empty selections, large skips, sort/order/skip/limit combinations and nesting depth are unsampled",
  [CORE+"functions/parsers/for.rs", CORE+"process/iter.rs"],
  [("ForFunction::execute", CORE+"functions/parsers/for.rs"), ("token rewind", CORE+"process/iter.rs")],
  ["built output"])

p("C06", "A conditional renders exactly the branch its condition selects",
  "Each `ifeq`, `ifne`, `ifgt`, `ifge`, `iflt`, `ifle` and `ifdefined` block renders exactly its first part when the condition holds and exactly its `else` part (nothing if absent) otherwise, at any nesting with other blocks, and the unselected part has no output and no effect. Numbers compare by numeric value, strings by equality, a number never equals a string, only numbers have an order (`ifgt`, `ifge`, `iflt` and `ifle` never hold for anything else), and `ifdefined` holds exactly for variables that exist and are not null; comparing an undefined or null variable fails the build.",
  ["inputs", "programs"], "all operand pairs (integers, floats, strings, variables) and all nestings",
  "the `conditionals` test samples a few operand pairs with no nesting in untaken branches",
  [CORE+"functions/parsers/if.rs", CORE+"functions/parsers/ifdefined.rs", CORE+"functions/parsers/else.rs", CORE+"functions/mod.rs"],
  [("if_parsers!", CORE+"functions/parsers/if.rs"), ("Input comparison", CORE+"functions/mod.rs")],
  ["built output"])

p("C07", "Unbalanced blocks and malformed tags fail the build",
  "A page, Markdown body, Markdown template or root template in which a rendered block is left open, closed twice, closed by the `end` of another block, or has an `else` outside a conditional never builds successfully. The same goes for a malformed tag anywhere: an unknown function, an unclosed tag or string, a wrong number or kind of arguments.",
  ["inputs", "programs"], "all single structural faults injected at any place of an otherwise valid site",
  "no existing test feeds an invalid template",
  [CORE+"process/mod.rs", CORE+"parse/mod.rs", CORE+"functions/parsers/end.rs", CORE+"functions/parsers/else.rs"],
  [("frame matching", CORE+"functions/parsers/end.rs"), ("base frame check", CORE+"process/mod.rs"), ("argument checks", CORE+"functions/parsers/")],
  ["build result"])

p("C08", "Markdown pages expose their frontmatter and rendered content",
  "A Markdown page becomes `name.html`, rendered from its template with `$self` holding every frontmatter value verbatim, `$self.content` the CommonMark-plus-extensions HTML of its body after the body's own template tags were executed, and `$self.markdown` the body source; the same values are seen by loops over its directory. Files without frontmatter are all body; frontmatter lines that are not `key: \"value\"` and unterminated frontmatter fail the build.",
  ["inputs"], "all frontmatters, Markdown bodies and line endings",
  "one fixed Markdown file is tested",
  [CORE+"parse/markdown.rs", CORE+"process/mod.rs"],
  [("parse_markdown", CORE+"parse/markdown.rs"), ("preprocess_markdown", CORE+"process/mod.rs")],
  ["built output"])

p("C09", "excerpt and timetoread compute what they document",
  "`excerpt(v, n)` outputs the leading text of `v` with HTML tags removed, never longer than n characters (plus `...`), with `...` appended when text was left out and otherwise the whole text. `timetoread(v)` outputs the number of whitespace-separated words divided by 200, rounded down, but at least 1.",
  ["inputs"], "all strings (tags, Unicode) and lengths", "one fixed string is tested",
  [CORE+"functions/parsers/excerpt.rs", CORE+"functions/parsers/timetoread.rs"],
  [("excerpt", CORE+"functions/parsers/excerpt.rs"), ("timetoread", CORE+"functions/parsers/timetoread.rs")],
  ["built output"])

p("C10", "dateformat formats the instant its input denotes",
  "For dates written in any of the usual notations (RFC 3339/2822, ISO date with or without time, Unix seconds or milliseconds, month names), `dateformat` outputs the strftime rendering, in UTC, of exactly that instant, a bare date meaning midnight. An input that is not a date, or an invalid format string, fails the build without crashing.",
  ["inputs"], "all instants, notations, offsets and format strings", "three fixed dates are tested",
  [CORE+"functions/parsers/dateformat.rs"], [("dateformat", CORE+"functions/parsers/dateformat.rs")],
  ["built output", "build error"])

p("C11", "No project content makes the builder crash",
  "Whatever bytes the files of a project contain (with blocks and values nested up to a few hundred levels), building it either succeeds or returns an error; it never panics. At the command line this is exit status 0, or exit status 1 with an `error:` message on standard error.",
  ["inputs"], "all file contents and names, valid or not", "no existing test feeds invalid input",
  [CORE+"parse/", CORE+"process/", CORE+"functions/", CLI+"error.rs", CLI+"build.rs"],
  [("parsers and processors", CORE+"parse/mod.rs"), ("error display", CLI+"error.rs")],
  ["build result", "process exit status and stderr"])

p("C12", "Errors point at the file and line of the tag at fault",
  "When a template tag is at fault, the reported error names the file that contains the tag and the line the tag is on, whether it is in a page, a Markdown body below frontmatter, a Markdown template or a root template. The command line prints that location together with the text of that line.",
  ["inputs"], "all sites with one faulty tag at any line of any file", "no existing test inspects an error",
  [CORE+"parse/parser.rs", CORE+"parse/mod.rs", CORE+"parse/markdown.rs", CLI+"error.rs"],
  [("Parser::location", CORE+"parse/parser.rs"), ("LocatableToken::traceback", CORE+"parse/mod.rs"), ("TracebackError display", CLI+"error.rs")],
  ["error value", "stderr"])

p("C13", "The output directory holds exactly the files the project defines",
  "After a build, the output directory contains, with exact contents: each page (`x.html`, or `x/index.html` under `strip_extensions` unless it is an index), each other content file verbatim, JSON files only if `save_data_files`, every file of `static` and of `temp` under its own name, and nothing else; templates are never output and the directory structure mirrors the input.",
  ["inputs", "configurations"], "all project trees and settings", "tests only read `dist/index.html`",
  [CORE+"fs/mod.rs", CORE+"lib.rs", CLI+"build.rs"],
  [("save_recur", CORE+"fs/mod.rs"), ("merge", CORE+"fs/mod.rs"), ("build", CLI+"build.rs")],
  ["files below the output directory"])

p("C14", "Two sources for one output path fail the build",
  "If two files of the project would occupy the same output path, or one needs a directory where the other is a file, the build fails; it never silently drops or overwrites one of them. Directories of `content`, `static` and `temp` with the same name are united without loss.",
  ["inputs", "configurations"], "all pairs of overlapping trees", "no test has overlapping trees",
  [CORE+"fs/mod.rs", CLI+"build.rs"], [("merge", CORE+"fs/mod.rs"), ("save_recur", CORE+"fs/mod.rs")],
  ["build result", "output directory"])

p("C15", "Rebuilding converges to a clean build and never touches inputs",
  "After any history of edits and builds, the output of a successful build equals that of building the current inputs from scratch: nothing stale remains, nothing depends on earlier builds. A build that fails on the content, its templates or conflicting output paths leaves the previous output as it was, `temp` is removed by a successful build, and no build changes any file of `content`, `static` or `scripts` or the manifest.",
  ["histories"], "all sequences of edits, deletions, renames, setting changes and builds",
  "tests build once from a clean tree",
  [CLI+"build.rs", CORE+"lib.rs", CORE+"fs/mod.rs"], [("StuartContext::build", CLI+"build.rs"), ("Node::save", CORE+"fs/mod.rs")],
  ["project directory after each build"])

p("C16", "Pages do not influence each other",
  "A page's output depends only on the page itself, its templates and the data it imports or loops over: adding, removing, editing or reordering any other page or asset leaves it byte-identical. Variables and sections defined while rendering one page are never visible in another.",
  ["inputs", "histories"], "all sites and all edits to unrelated files", "tests build sites with one page",
  [CORE+"lib.rs", CORE+"process/mod.rs"], [("build_node", CORE+"lib.rs"), ("per-page scope", CORE+"process/mod.rs")],
  ["built output of every page"])

p("C17", "Saved metadata mirrors the built tree",
  "With `save_metadata`, the build writes `metadata.json` next to the manifest: the site's name and author and a tree with every file and directory of the output under its name (pages as `x.html`), Markdown pages carrying exactly their frontmatter, JSON files their value and other files marked as such. Without it no metadata is written.",
  ["inputs", "configurations"], "all trees and settings", "no test enables metadata",
  [CORE+"fs/mod.rs", CORE+"lib.rs", CORE+"parse/contents.rs", CLI+"build.rs"],
  [("save_metadata_recur", CORE+"fs/mod.rs"), ("to_json", CORE+"parse/contents.rs")],
  ["metadata.json"])

p("C18", "Plugin functions and parsers are called as the plugin API documents",
  "A tag calls the plugin function of that name, plain or `plugin::function`, with exactly the positional and named arguments written, in order; built-in functions win over plugin functions of the same name, and an unknown name fails the build. A plugin node parser receives exactly the contents of the files with its extensions and its processor is given the build's environment and the templates in force for that file, its result replaces contents and name of that file only, and the metadata hold what it says about itself.",
  ["inputs", "programs", "configurations"], "all plugin sets, calls and argument lists", "native plugins have no tests",
  [CORE+"plugins/mod.rs", CORE+"parse/mod.rs", CORE+"parse/function.rs", CORE+"fs/mod.rs"],
  [("function lookup", CORE+"parse/mod.rs"), ("parser lookup", CORE+"fs/mod.rs create_from_file")],
  ["recorded calls", "built output", "metadata.json"])

p("C19", "JavaScript plugins exchange values with templates faithfully",
  "A JavaScript plugin function receives each argument as the JSON value it has in the template and its result is output as JavaScript's string of it (nothing for undefined). `STUART.get` returns the variable visible at the tag, `STUART.set` defines or replaces a variable of the enclosing block with any JSON value, and plugins share no state with each other.",
  ["inputs", "programs"], "all JSON values and call sequences", "two fixed pages are tested",
  [CLI+"plugins/js/mod.rs", CLI+"plugins/js/json.rs", CLI+"plugins/js/context.rs"],
  [("json_to_js/js_to_json", CLI+"plugins/js/json.rs"), ("get/set", CLI+"plugins/js/context.rs")],
  ["built output"])

p("C20", "Build scripts run around the build with the documented environment",
  "Every `onPreBuild` script runs before content is read and every `onPostBuild` script after the output and metadata are written, exactly once per build, with the documented `STUART_*` variables besides those of the build; nothing else in `scripts` runs. If a script fails the build fails with its output, a failing pre-build script leaving the previous output untouched; files a pre-build script puts in the temp directory are part of the output.",
  ["inputs", "configurations", "fault_sequences"], "all sets of scripts, their effects and exit codes", "no test has scripts",
  [CLI+"scripts.rs", CLI+"build.rs"], [("Scripts", CLI+"scripts.rs"), ("StuartContext", CLI+"build.rs")],
  ["script-side log of environment and files", "exit status"])

p("C21", "stuart new creates a buildable project; stuart clean removes only outputs",
  "`stuart new NAME` creates a project, whose manifest carries exactly that name and the Git author, that builds successfully as it is, and refuses to touch an existing path. `stuart clean` in a project removes the `dist` and `_build` directories and `metadata.json` and changes nothing else; a new project is a Git repository that ignores those outputs unless `--no-git` is given; outside a project it fails and changes nothing.",
  ["inputs", "histories"], "all names, author identities and directory contents", "neither command is tested",
  [CLI+"new.rs", CLI+"main.rs", CLI+"config/git.rs"], [("new", CLI+"new.rs"), ("clean", CLI+"main.rs")],
  ["file tree", "exit status"])

p("C22", "The development server serves exactly the built files",
  "For every file of the output directory the development server answers its path with status 200 and its bytes, unchanged except that HTML with a `</body>` gets the reload script inserted just before the first one, and with the content type of its extension; directories redirect to their slash form, and that serves their index. Paths that are not in the output directory, including any attempt to leave it, answer 404 and never disclose a file outside it.",
  ["inputs"], "all output trees and request paths", "the server has no tests",
  [CLI+"serve/mod.rs"], [("serve_dir", CLI+"serve/mod.rs")], ["HTTP responses"])

p("C23", "The development server rebuilds after every change and then settles",
  "After any edit of the content, static files or templates, the output becomes that of a fresh development build of the current files, each connected browser is told to reload, and the page open in it does, once the output is in place, and an edit that fails to build leaves server and output in service until it is repaired. With no further edits the server stops rebuilding, whatever the output directory and settings.",
  ["histories", "schedules"], "all sequences of edits, including invalid intermediate states, with any number of clients", "the server has no tests",
  [CLI+"serve/mod.rs"], [("build_watcher", CLI+"serve/mod.rs"), ("websocket_handler", CLI+"serve/mod.rs")],
  ["served files", "WebSocket messages", "build count"])

p("C24", "Plugin dependencies load from the first source that works",
  "Each dependency is loaded from the first of its `;`-separated sources that works, relative sources being relative to the manifest: a library or script file, a Cargo project that is compiled, a Git repository that is cloned (and brought up to date by later builds), or a file that is downloaded. If every source of a dependency fails, the build fails and no output is written.",
  ["configurations", "fault_sequences"], "all source lists mixing valid and invalid sources of each kind", "only a single JS file source is tested",
  [CLI+"plugins/mod.rs", CLI+"plugins/source.rs", CLI+"config/git.rs"], [("load/load_from_source", CLI+"plugins/mod.rs"), ("build_cargo_project", CLI+"plugins/source.rs")],
  ["which plugin answers in the output", "exit status"])

p("C25", "The manifest and command-line options take effect exactly as written",
  "Each setting of the manifest takes the value written or else its documented default, independently of the others, of their order and of unrelated keys; `--manifest-path` and `--output` select the project and output directory wherever the command is run from. A missing or malformed manifest fails the build, naming the place of the error, and writes nothing.",
  ["configurations", "inputs"], "all manifests, option combinations and working directories", "tests use two fixed manifests",
  [CLI+"config/mod.rs", CLI+"build.rs", CLI+"main.rs"], [("config::load", CLI+"config/mod.rs"), ("StuartContext::init", CLI+"build.rs")],
  ["output location and layout", "exit status"])

p("C26", "$env exposes the environment and the build's own STUART_ENV",
  "`$env.NAME` is the value of each environment variable of the build, exactly, in pages, Markdown and root templates alike, and `$env.STUART_ENV` is `production`, `development` or `benchmark` according to the command, whatever the inherited environment contains. Variables that are not set are undefined, and environment variables that are not text never break a build that does not use them.",
  ["inputs", "configurations"], "all environments", "no test reads `$env`",
  [CORE+"lib.rs", CLI+"build.rs", CLI+"main.rs"], [("base frame", CORE+"lib.rs build")], ["built output"])

p("C27", "Commands report success, failure and progress truthfully",
  "A command that succeeds exits 0 and one that fails exits 1 with an `error:` on standard error (including a development server that cannot start); `--quiet` suppresses all other output, and neither `--quiet` nor `--verbose` changes what is built or whether it succeeds. `stuart bench -i N` performs exactly N builds, stopping at the first that fails, and leaves what a build would.",
  ["inputs", "configurations", "fault_sequences"], "all commands, options and projects, failing ones included", "no test runs the binary",
  [CLI+"main.rs", CLI+"logger/mod.rs", CLI+"logger/progress.rs", CLI+"error.rs", CLI+"serve/mod.rs"], [("main and bench", CLI+"main.rs"), ("Logger", CLI+"logger/mod.rs"), ("Progress", CLI+"logger/progress.rs")],
  ["exit status", "standard output and error", "output tree", "build count"])

p("C28", "Builds are reproducible",
  "The same project gives byte-identical output and metadata wherever it lies, whatever the working directory, the output directory and the command that builds it, and whatever the time, modification times, locale, time zone, home, unrelated environment variables and files around it are. Building it again changes nothing.",
  ["inputs", "configurations", "histories"], "all projects and surroundings", "tests build each site once, in one place",
  [CORE+"lib.rs", CORE+"fs/mod.rs", CLI+"build.rs"], [("build", CORE+"lib.rs"), ("Node", CORE+"fs/mod.rs")],
  ["output tree", "metadata"])

p("C29", "The library's builder keeps its state straight in any order of calls",
  "With the library, saving, merging or writing metadata before a build fails with NotBuilt and metadata that was not enabled with MetadataNotEnabled; building again replaces everything built or merged before; what was built can be saved to any number of places, each receiving the same tree, whatever they held before. Conflicting outputs are errors that leave the previous output, and no order of calls panics.",
  ["histories", "inputs"], "all sequences of calls of the public builder", "tests call it in one order",
  [CORE+"lib.rs", CORE+"fs/mod.rs", CORE+"error.rs"], [("Stuart", CORE+"lib.rs"), ("Node::save/merge", CORE+"fs/mod.rs")],
  ["returned results", "output trees"])

p("C30", "Error messages name what is at fault",
  "When the content of a project makes a build fail, the message names what is at fault: the variable, with its path, that is undefined, null, defined twice or of the wrong type, with the type that was found; the section, function, file or directory that does not exist; the template that is missing and a page that needs it; the JSON file that is malformed; both files of a conflict.",
  ["inputs"], "all faults and names", "tests do not look at error messages",
  [CORE+"error.rs", CORE+"process/mod.rs", CORE+"parse/mod.rs", CLI+"error.rs"], [("ProcessError/ParseError/FsError", CORE+"error.rs"), ("LocatableToken::process", CORE+"process/mod.rs"), ("StuartError", CLI+"error.rs")],
  ["returned error", "standard error"])

p("C31", "Builds at the same time do not influence each other",
  "Several builders in one process, called in turns or in threads at the same time, and several commands running on one machine, each give exactly the output and metadata their project gives alone: content, settings, plugins and environment of one never show in another.",
  ["schedules", "inputs", "histories"], "all projects, interleavings of calls and threads", "tests build one site at a time",
  [CORE+"lib.rs", CORE+"process/mod.rs", CORE+"functions/mod.rs", CLI+"build.rs"], [("Stuart", CORE+"lib.rs"), ("FUNCTION_PARSERS", CORE+"functions/mod.rs"), ("StuartContext", CLI+"build.rs")],
  ["output trees", "metadata"])

p("C32", "The virtual filesystem mirrors the directory it was read from",
  "Reading a directory gives a tree of exactly its files and directories, hidden, empty and linked ones included, with their names, bytes and sources, parsed by their extension or not at all if that is asked for. Looking up a relative path finds exactly the file or directory there and nothing else; a tree that is not parsed is saved as it was read; merging trees unites them or fails naming both files; a builder's output tree holds exactly what it saves.",
  ["inputs"], "all directory trees and paths", "tests read two fixed directories",
  [CORE+"fs/mod.rs", CORE+"lib.rs"], [("Node::new/get_at_path/merge/save", CORE+"fs/mod.rs")],
  ["node trees", "output trees"])

p("C33", "Failing file operations are never passed over",
  "When reading, listing, creating, writing or removing a file fails during a build, `stuart new` or `stuart clean`, the command either still leaves exactly what it leaves otherwise, or ends with an error; it never succeeds with something missing, cut short or left over. Partial and interrupted reads and writes make no difference. A failed or killed command leaves its inputs as they were, and the previous output too if it could not read the project; the next command makes up for it.",
  ["inputs", "fault_sequences", "crash_points"], "every file operation of a command, every error of the system, and being killed at it",
  "no test makes an operation fail", [CORE+"fs/mod.rs", "stuart/src/build.rs", "stuart/src/scripts.rs", "stuart/src/main.rs", "stuart/src/new.rs"],
  [("Node::create_from_dir/save", CORE+"fs/mod.rs"), ("StuartContext::build", "stuart/src/build.rs"), ("clean", "stuart/src/main.rs")],
  ["exit status", "output directory", "project files"])

p("C34", "The bundled plugins do their job",
  "With `plugins/demo` loaded, `demo::demo()` writes its one paragraph wherever it is rendered, and any argument fails the build. With `plugins/imgopt`, every `.png` file of the content becomes what the optimiser makes of it, under its own name, and one that it rejects fails the build; all other files, static files included, stay as they are.",
  ["inputs", "configurations"], "all sites and images", "no test loads a plugin",
  ["plugins/demo/src/function.rs", "plugins/demo/src/lib.rs", "plugins/imgopt/src/lib.rs"],
  [("DemoFunction", "plugins/demo/src/function.rs"), ("PngProcessor", "plugins/imgopt/src/lib.rs")], ["output tree", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
