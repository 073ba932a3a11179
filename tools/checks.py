"""The checks: how many cases per shard in each tier, what they need, and what counts as non-trivial."""

CHECKS = {
    "C01": dict(quick=30000, thorough=600000,
        rule="Whole sites (pages, templates, data, Markdown) generated with text from odd fragments (Unicode, CR/LF, brace runs, escapes, half tags) around tags in free layout; built in-process and compared byte for byte with the reference model. Non-trivial: it builds and an HTML file has a text run with a brace, backslash, quote, dollar, control or non-ASCII character."),
    "C02": dict(quick=30000, thorough=600000,
        rule="Whole sites rich in (nested) sections and inserts, with sections sometimes left out, against the reference model. Non-trivial: at least two sections and two inserts."),
    "C03": dict(quick=30000, thorough=600000,
        rule="Directory trees with templates at random levels (and decoys in siblings and descendants), against an independent nearest-ancestor search; each template prints its own name. Non-trivial: at least one page and two templates."),
    "C04": dict(quick=30000, thorough=600000,
        rule="Whole sites rich in imports, shadowing, loops and dotted paths, 2% deliberately wrong references, against the reference model. Non-trivial: at least two variable tags and an import or loop."),
    "C05": dict(quick=12000, thorough=300000,
        rule="Whole sites rich in (nested) for loops over files, variables and directories with random sortby/order/skip/limit, against the reference model. Non-trivial: at least one loop."),
    "C06": dict(quick=20000, thorough=400000,
        rule="Whole sites rich in nested conditionals over numbers (around the i32 and f64 limits), strings, other types and missing variables, with blocks in taken and untaken branches, against the reference model. Non-trivial: at least one conditional."),
    "C07": dict(quick=40000, thorough=800000,
        rule="A generated site into which one fault (malformed tag, unclosed tag at the end, unbalanced block) is put at a random place; the model decides whether it is rendered. Non-trivial: the fault is rendered (or parsed), so that the build must fail."),
    "C08": dict(quick=30000, thorough=600000,
        rule="Sites of Markdown files with random frontmatter (and malformed variants), bodies with constructs and tags, read through md.html and loops, against pulldown-cmark run by the harness on the model's text. Non-trivial: it builds and a Markdown file has both frontmatter and a body, or its frontmatter is malformed."),
    "C09": dict(quick=60000, thorough=1200000,
        rule="Strings of words, tags, Unicode and runs of spaces with lengths around the limit and word counts around multiples of 200, against a reference written from the documentation. Non-trivial: an excerpt that is cut in a text with tags, or a text of 200 words or more."),
    "C10": dict(quick=40000, thorough=800000,
        rule="Instants from 1970 to 2100 written in a random supported notation and offset, formatted with random strftime items, against a calendar computed by the harness; non-dates (times of day, days without a year and months without a day among them) and invalid formats must fail. Every case is non-trivial: it checks one date, non-date or format."),
    "C11": dict(quick=16000, thorough=320000, needs=("cli",),
        rule="Projects of arbitrary content: well-formed sites with bytes flipped, cut or spliced, token soup, deep nesting, odd JSON, non-UTF-8 contents and names, built in-process (panics caught, crashes of the process confirmed by replay) and every tenth with the binary. Non-trivial: the project has at least one file which is not well-formed, odd or deep."),
    "C12": dict(quick=15000, thorough=300000, needs=("cli",),
        rule="A generated site into which one faulty tag (malformed, or failing when executed) or frontmatter line is put at a random line of a random file; the error must carry that file and line, and the binary must print them with the text of the line. Non-trivial: the model confirms that the fault is met."),
    "C13": dict(quick=5000, thorough=100000, needs=("cli",),
        rule="Projects of pages, templates, data, assets and directories in content, static and temp under random settings, over a stale output directory; the output tree (with directories) is compared with a model of the layout. Non-trivial: the build succeeds, and two of content, static and temp have files or extensions are stripped."),
    "C14": dict(quick=6000, thorough=120000, needs=("cli",),
        rule="Projects in which two sources are moved onto the same output path, or one onto a directory another needs; the model decides whether they conflict. Non-trivial: they do (the build must fail), or directories are united."),
    "C15": dict(quick=1200, thorough=24000, needs=("cli",),
        rule="Histories of edits (add, change, delete, rename, settings), builds into several output directories (and over the inputs, which must be refused) and benchmarks, with failing states in between; after each build output, inputs, temp and metadata are compared with a build of the current inputs from scratch (the layout model). Non-trivial: at least two builds, one of which succeeds after an edit."),
    "C16": dict(quick=8000, thorough=160000,
        rule="Sites with several pages, probes for leaked names and unrelated files; every page built alone (with its templates and data) is compared with the same page built among the others. Non-trivial: at least two pages."),
    "C17": dict(quick=5000, thorough=100000, needs=("cli",),
        rule="Projects as in C13 with metadata on or off, read back with an independent JSON parser and compared with the model's tree. Non-trivial: metadata is wanted and the tree has a Markdown page, JSON file or directory."),
    "C18": dict(quick=35000, thorough=700000,
        rule="Sites with calls to generated plugin sets (functions recording their arguments, node parsers changing names and contents), registered through the plugin API in-process. Non-trivial: at least one call or parsed node."),
    "C19": dict(quick=2200, thorough=44000, needs=("cli",),
        rule="Sites with calls to two JavaScript plugins which print, return, get, set and count, over random JSON values; built with the binary and compared with the reference model. Non-trivial: at least one call."),
    "C22": dict(quick=600, thorough=12000, needs=("cli", "netns"), watchdog=300,
        rule="Output trees with files of all names, types and contents, served by the real development server (a loopback network per shard); every file, directory and index is requested in several encodings, and paths that are not there, that leave the output or come back to it. Non-trivial: at least 3 files and directories, and 2 requests for what is not there."),
    "C20": dict(quick=600, thorough=16000, needs=("cli",),
        rule="Projects with build scripts which record what they see, write temporary files, fail, or are missing or unreadable, built (and benchmarked) into random outputs; order, environment, exit status and outputs are compared with a model of the life cycle. Non-trivial: at least one script runs."),
    "C21": dict(quick=1500, thorough=30000, needs=("cli",),
        rule="`stuart new` with odd names, places and Git identities, whose project must build, say what was asked and be cleaned back to itself; `stuart clean` in directories full of look-alikes and symbolic links, against a model of what it may remove. Non-trivial: a project is asked for, or there is something to clean."),
    "C23": dict(quick=120, thorough=1500, shards=16, needs=("cli", "netns"), watchdog=300,
        technique="property-based testing: generated histories of edits and browsers on a running development server against a model, shrinking",
        rule="Histories of edits (files and directories added, replaced, written over, renamed, removed; broken and repaired pages; a replaced manifest), browsers coming and going, with the output directory, working directory, settings and temporary files varied, on a running development server; an edit may also be made during its first build. After each edit the output on disk and over HTTP is compared with the layout model, every browser must have been told to reload, not before the output was there, and the server must settle. A history fails only if it does three times, with growing patience. Non-trivial: at least one edit after which the site builds."),
    "C24": dict(quick=300, thorough=20000, needs=("cli", "plugin", "exec", "netns"), watchdog=300,
        technique="property-based testing: generated source lists (each working or broken in some way) against a model of which source answers, with builds repeated after the sources change, shrinking",
        rule="Projects with dependencies on lists of sources of every kind (libraries, scripts, Cargo projects, Git repositories, downloads), each working or broken in one of many ways, built, and built again after sources appear, disappear or change; which plugin answers in the output is compared with a model. Cargo is a stand-in on PATH, remotes are local. Non-trivial: a dependency has a source that works, or none of at least one does."),
    "C25": dict(quick=6000, thorough=120000, needs=("cli",),
        rule="Manifests in random TOML notation with keys left out, mistyped, misspelt or malformed, and command lines with random outputs and manifest paths, against a model of the settings; a rejected manifest must be reported at its line. Non-trivial: a setting, option or fault is given."),
    "C26": dict(quick=2500, thorough=60000, needs=("cli", "netns"), watchdog=300,
        rule="Generated sites which read `$env` in variables, conditionals and loops, built, benchmarked and served by the binary under a random environment (with values that are not text and an inherited STUART_ENV) and compared with the reference model. Non-trivial: at least one variable of the environment is read."),
    "C27": dict(quick=500, thorough=12000, needs=("cli", "netns"), watchdog=300,
        technique="property-based testing: metamorphic comparison of every command under --quiet, plain and --verbose, and benchmarks against builds, shrinking",
        rule="Projects that build or fail in some way (content, scripts, settings), built, benchmarked, created, cleaned and served under --quiet, plain and --verbose, before or after the command; exit status, both streams and what is left behind are compared with each other and with the model, and scripts count the builds of a benchmark. Every case is non-trivial: it runs a command and judges its status and output."),
    "C28": dict(quick=1500, thorough=30000, needs=("cli", "clock"),
        technique="property-based testing: metamorphic comparison of builds of the same project in different surroundings, shrinking",
        rule="Projects of pages, data, assets, scripts and JavaScript plugins built twice with the binary, the second time in another place, from another working directory, into another output, by another command, at another time (a clock which is off, with dates to format), with other modification times, locale, time zone, home and environment and other files around it; trees and metadata must be identical. Non-trivial: both build, and the directories are listed in the same order (loops which are not sorted follow it)."),
    "C29": dict(quick=8000, thorough=160000,
        technique="property-based testing: model-based (stateful) generation of call sequences on the library's builder, shrinking",
        rule="Sequences of calls on the library's builder (build, save, merge, metadata, several outputs, in any order) over random projects that build or fail, against a model of its state. Non-trivial: more than two calls, one of which saves."),
    "C30": dict(quick=6000, thorough=120000, needs=("cli",),
        rule="Projects with one fault of the content (an undefined, null, doubly defined or mistyped variable, a section, function, file or template that is missing, malformed JSON, two files of one path) whose names are generated; the message of the library, and every so often of the binary, must have the names and types the model expects. Non-trivial: the build fails on the fault."),
    "C31": dict(quick=3000, thorough=60000, needs=("cli",),
        technique="property-based testing: metamorphic comparison of builds that run together with each build on its own, shrinking",
        rule="Two to four projects with different content, settings and environments, built by builders of one process, in turns or in threads at the same time, or by commands at the same time; output and metadata of each must be those it has alone. Non-trivial: at least two of the builds succeed with different outputs."),
    "C32": dict(quick=10000, thorough=200000,
        technique="property-based testing: generated directories against an independent walk of them, round trips, shrinking",
        rule="Directories of all names, contents, links and depths read as virtual filesystem trees, parsed and not, which are compared with the directory, searched for paths that are and are not there, saved, merged, and taken from a builder before and after it builds. Non-trivial: the tree has at least three files and directories."),
    "C33": dict(quick=1000, thorough=20000, needs=("cli", "fault"),
        technique="property-based testing with fault injection: generated projects, histories and faults of single file operations against the layout model, shrinking",
        rule="Projects are built, edited and built again (or benchmarked, created, cleaned) while one file operation of the command fails with an error of the system, is partial, is interrupted, or kills it; what the command says is compared with what it left, its inputs with what they were, and the next, undisturbed command with the model. Non-trivial: the operation took place."),
    "C34": dict(quick=2000, thorough=40000, needs=("cli", "bundled"),
        rule="Generated sites which call `demo()` anywhere (sometimes with arguments) and hold images and files which only look like images, built by the binary with `plugins/demo`, `plugins/imgopt` (linked with a stand-in for oxipng), both or neither, against the reference model. Non-trivial: a plugin which is loaded is used."),
}
