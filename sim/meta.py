"""Static facts about the checks (imported by check.py without loading the simulator)."""
REAL = ("elsie (all modules, unmodified, freshly imported per simulated process), PyPDF2, lxml, "
        "Pillow, cairocffi/pango, marko, pygments, CPython's tempfile/subprocess-facing code")
STUBS = ("Inkscape shell (modelled on Inkscape 1.2.2), pdflatex, pdf2svg, pdfunite, python-pptx, "
         "IPython; file contents live in a real scratch directory behind simulated calls")
ASSUME = (
    "A killed process loses everything not yet passed to the operating system; completed writes "
    "survive in order (no reordering of completed writes by the disk).",
    "A tool that ends normally wrote either the complete file or none.",
)
META = {}
NOTE = ("Seeded search, not exhaustive: holds on every simulated run of this seed range. Trusts the "
        "simulator, its tool stubs and the oracle named here: ")


def add(pid, quick, technique, oracle, rule, thorough_s=420, assumptions=()):
    META[pid] = {"quick": quick, "thorough_s": thorough_s, "rule": rule, "real": REAL,
                 "stubs": STUBS, "assumptions": ASSUME + tuple(assumptions),
                 "technique": "deterministic simulation with fault injection: " + technique,
                 "note": NOTE + oracle}


add("C01", 300,
    "multi-session histories with kills and write errors at seam events",
    "pages of every session after the failed one compared with a clean-room build.",
    "Seeded histories of 2-3 sessions over one cache directory with generated decks; "
    "each is first run without faults, then with kills and write errors placed at seam events of "
    "sessions before the last. Non-trivial: at least one fault fired; distinct by event history.")


add("C02", 300,
    "histories of 2-4 sessions with kills and failed writes around the stored measurements",
    "the pages of every later session against a clean-room build, and every measurement that a "
    "session stored or used against the deterministic measuring of the Inkscape stub for that "
    "text, style and version.",
    "Seeded histories over one cache directory: text-heavy decks, edits between sessions, changed "
    "elsie and Inkscape versions, truncated or lost measurement files; faults: kill inside any "
    "write of the measurements, write and read errors there. Non-trivial: a fault fired or more "
    "than 50 seam events happened; distinct by event history.")

add("C03", 450,
    "failing conversions (tool errors, dead tools, garbage, full disks, spoiled inputs), then a "
    "retry in the same or a later session",
    "every failed conversion must raise, be attempted again when repeated, and give the pages of "
    "a clean-room build afterwards.",
    "Seeded decks with LaTeX, ORA and page exports, snippets that can never be converted, spoiled "
    "and restored ORA files; faults: each tool failing in each way, write and spawn errors. "
    "Non-trivial: a fault fired; distinct by event history.")

add("C04", 1400,
    "controlled thread schedules (random, sticky, PCT) with a switch point at every line of "
    "elsie/utils/cache.py and at every file operation",
    "exactly-once production per input and type, complete files made from the own input, failed "
    "productions raise for their own requester, all requests end.",
    "2-6 threads with several requests each over one FsCache, productions that fail, stall or are "
    "short of disk space, one or two generations of caches over a directory. Non-trivial: more "
    "than one thread ran; distinct by schedule (hash of the chosen thread sequence).",
    assumptions=("A thread switch happens only between source lines of elsie/utils/cache.py or at "
                 "a seam; switches inside one line of it are not explored.",))

add("C05", 300,
    "histories of 2-4 sessions over one cache directory with edits, deletions and version changes",
    "every page of every render against a clean-room build from an empty cache.",
    "Sessions with one or two decks, Inkscape and Cairo, all formats, page grids, prune and save "
    "switches, edited slides and asset files, removed cache files, changed versions, text-to-path; "
    "light faults. Non-trivial: more than 50 seam events; distinct by event history.")

add("C06", 350,
    "histories of sessions with pruned, unpruned and failing renders over a littered cache "
    "directory",
    "the directory and the stored measurements after every render against the set of artefacts "
    "that a replay of the deck over an empty cache uses.",
    "Foreign files of similar names, leftovers of earlier decks and versions, displays in "
    "between; faults: write and read errors, failing tools and interrupts before and after pages "
    "exist. Non-trivial: a fault fired or more than 50 seam events; distinct by event history.")

add("C07", 500,
    "repeated sessions and renders with the external tools' work recorded",
    "no external work at all on the repeated render; no measurement, export or conversion twice "
    "within a session.",
    "One or two sessions that build and render, then a session over the same cache that builds "
    "the same deck again, in any mix of formats, selections and pruning; some runs with one "
    "injected failure, after which a retry may redo what failed. Non-trivial: more than 50 seam "
    "events; distinct by event history.")

add("C08", 500,
    "tools that die before, while or after replying, at every request, and arbitrary amounts of "
    "diagnostic output through bounded pipes",
    "an operation whose tool died raises; noise alone changes nothing; no task ever blocks "
    "for good (deadlock detection in the scheduler, bounded steps); pages against a clean-room "
    "build.",
    "Decks with text, exports, LaTeX, ORA, PDF merging; tools are tasks connected by simulated "
    "pipes of 64 KiB; deaths with exit codes and signals, noise up to 300 kB. Non-trivial: a "
    "fault fired; distinct by event history.",
    assumptions=("Pipes hold 64 KiB; a tool blocks when its pipe is full, as on Linux.",))

add("C09", 300,
    "arbitrary splitting of tool output, extra lines, failed and interrupted earlier commands",
    "every page against a clean-room build; every non-number reply must raise.",
    "Text-heavy decks over two sessions; Inkscape output is delivered byte by byte, in random "
    "pieces or at once, with warnings in between; faults: garbage, silence, not-a-number replies, "
    "errors, deaths, interrupts during any exchange. Non-trivial: a fault fired; distinct by "
    "event history.")

add("C10", 450,
    "histories of building steps, renders, exports and displays of one deck",
    "every page of every render against a clean-room build of the deck as it was at that point.",
    "Renders of all formats, selections, grids, cache options, PowerPoint exports and displays "
    "placed between building operations; light faults, after which the operation is repeated. "
    "Non-trivial: more than 50 seam events; distinct by event history.")

add("C11", 600,
    "interleaved building of several slides and decks in one process",
    "every page against the page of the same slide built alone in a clean room.",
    "One or two decks (own or shared backend and cache directory), two or three slides each, "
    "building operations of all of them in any order, deck styles in between, renders on the way; "
    "light faults. Non-trivial: more than 50 seam events; distinct by event history.")

add("C12", 900,
    "generated decks rendered in every output form, with failures and retries in between",
    "number, order and content of the pages against an independent model of fragments, "
    "visibility, selections, grids and added PDF files.",
    "Decks with all kinds of content and selectors, added PDFs, images with fragments; renders to "
    "merged PDF (both mergers), files, units, grids, PowerPoint, Cairo. Non-trivial: more than 50 "
    "seam events; distinct by event history.")

add("C13", 900,
    "histories of slide additions under every name policy",
    "the slides in the output and every lookup by name against an independent model of the "
    "policy.",
    "Names from a small pool, missing names, names that are not strings, decorated functions, "
    "added PDFs, content added to replaced slides, renders in between; notebook sessions. "
    "Non-trivial: more than 50 seam events; distinct by event history.")

add("C14", 700,
    "renders with a failure at every read, write, tool request and merge step",
    "success only with a complete output equal to a clean-room build; the old output untouched "
    "by failures before the pages are available; the retry succeeds.",
    "All formats and both mergers, existing output files, added PDFs that cannot be read, fault "
    "positions drawn over all seam events of the renders. Non-trivial: more than 50 seam events; "
    "distinct by event history.")

add("C15", 450,
    "operations that succeed, fail or are interrupted at any seam event",
    "all files below the simulated root (temporary, cache, output) before and after every "
    "operation, and the documents open in the Inkscape stub.",
    "Building, rendering, displaying, exporting with faults of every kind at every event. "
    "Non-trivial: more than 50 seam events; distinct by event history.")

add("C16", 400,
    "displays of slides and boxes at any point of building and rendering",
    "the parsed HTML against the clean-room pages of the slide, identifiers against all earlier "
    "ones, the cache directory before and after, later renders against clean-room builds.",
    "Inkscape and Cairo decks in notebook sessions; displays as PNG and SVG, of slides and boxes, "
    "repeated; faults during displays. Non-trivial: more than 50 seam events; distinct by event "
    "history.")

add("C17", 450,
    "image reads that fail, are cut short, are interrupted or deliver junk, then a retry",
    "failed additions must raise; the pictures on all slides against those the files and "
    "streams delivered, per a clean-room build.",
    "SVG, PNG, JPEG and ORA files and streams in any state, used on several slides, spoiled and "
    "restored, changed between and during reads. Non-trivial: more than 50 seam events; distinct "
    "by event history.")

add("C18", 700,
    "building histories with relative selectors, rejected additions and interrupts",
    "the current fragment after every operation and the fragments on all pages against an "
    "independent model.",
    "Slides built in interleaved order with next/last selectors in every place that takes one, "
    "images with fragments, invalid selectors, labels, styles and placements that have to be "
    "rejected, renders and displays in between. Non-trivial: more than 50 seam events; distinct "
    "by event history.")

add("C19", 240,
    "two or three sessions as concurrent tasks, switched at every file operation, write and tool "
    "request (random, sticky and PCT schedules), with kills",
    "every output against a clean-room build; afterwards one more session over the same "
    "directory.",
    "Equal or different decks, warm and cold caches, kills at any event of a session, tool "
    "deaths and write errors. Non-trivial: more than 50 seam events; distinct by event history "
    "including the schedule.",
    assumptions=("Sessions are switched at seam events (file operations, pipe transfers, tool "
                 "steps), not between arbitrary instructions; only these are visible to the other "
                 "session.",))

add("C20", 240,
    "histories of Cairo renders, decks and sessions over one cache directory with kills and "
    "write errors",
    "the pages of every output against a clean-room build (page contents carry markers) and a "
    "watch on every page file that a render returned.",
    "One to three sessions with one or two decks, all formats, units, pruning, leftovers of "
    "killed sessions; page files watched until a pruned render of a later deck. Non-trivial: "
    "more than 50 seam events; distinct by event history.")

add("C21", 400,
    "one to three interrupts at seam events of every kind of operation",
    "the interrupt reaches the caller; the repeated operation succeeds; all pages of this and "
    "the next session equal those of a clean-room build.",
    "Deck creation, text, images, LaTeX, displays, renders, exports; interrupts before and after "
    "the event, also shortly after one another, with and without Inkscape receiving the signal. "
    "Non-trivial: an interrupt fired; distinct by event history.")

add("C22", 1200,
    "interleaved building of lists and sublists with rejected items and renders in between",
    "the labels on the pages, in order, against an independent model of list counters.",
    "Ordered and unordered lists, start values, levels, label functions, labels that have to be "
    "rejected, several lists per slide filled in any order. Non-trivial: more than 50 seam "
    "events; distinct by event history.")

add("C23", 1200,
    "insertion histories with placements, z-levels and rejected placements",
    "the paint order of every page against an independent model of the box tree.",
    "Boxes prepended or placed above and below siblings, z-levels, line and inline boxes, lists, "
    "shapes and images, placements next to strangers. Non-trivial: more than 50 seam events; "
    "distinct by event history.")

add("C24", 800,
    "histories of style changes, reads and additions over decks, slides and boxes",
    "every style read and the style attributes of every text on the pages against an independent "
    "model of style scopes; the caller's style objects watched.",
    "Names re-used on several levels, shared style objects, returned objects changed by the "
    "caller, nested inline styles over several lines, rejected changes, two decks side by side; "
    "light faults and retries. Non-trivial: more than 50 seam events; distinct by event history.")

add("C25", 1000,
    "orders of taking positions, adding content and rendering",
    "coordinates of points, lines, texts and boxes on the pages against the places of the "
    "boxes they refer to, as shown by rectangles on the same pages; inline boxes against the "
    "Inkscape stub's measuring of the drawn text.",
    "Points, coordinates and middles of boxes taken before and after their content, kept and "
    "moved, line and inline boxes of plain and fitted texts, several renders; light faults and "
    "retries. Non-trivial: more than 50 seam events; distinct by event history.")
