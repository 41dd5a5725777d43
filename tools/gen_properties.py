#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids/titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

AST='vimwiki-cli/src/ast.rs'; CONV='vimwiki-cli/src/subcommand/convert.rs'
FMT='vimwiki-cli/src/subcommand/format.rs'; INS='vimwiki-cli/src/subcommand/inspect.rs'
UTL='vimwiki-cli/src/utils.rs'; LIB='vimwiki-cli/src/lib.rs'
HTML='vimwiki-core/src/lang/output/html/mod.rs'; HCONV='vimwiki-core/src/lang/output/html/convert.rs'
TK='vimwiki-core/src/timekeeper.rs'; PARS='vimwiki-core/src/lang/parsers'
OUTV='vimwiki-core/src/lang/output/vimwiki/mod.rs'

prop('C01','In-place formatting never destroys a note',
 'Whatever happens while `vimwiki format --inline` runs (it is killed, the machine loses power, the disk fills up, a read or write fails, or other formatters of the same notes run at the same time), every note it was given afterwards holds either its complete previous text or its complete formatted text, under its own name and with its own permissions. A note that could not be formatted (one that is not UTF-8 text, for example) is left untouched and makes the command exit with a failure status. (Notes below a directory that cannot be listed are skipped by design, without failure.)',
 ['crash_points','fault_sequences','schedules'],
 'every system call of the run as kill/power-loss point or failing/short/torn call; every interleaving of concurrent formatters; every note and directory layout',
 'No test runs the format subcommand at all, and none can place a crash or a full disk between the truncation of the note and the end of the write.',
 [FMT], [('read, parse, render, then replace the note',FMT+':process_file')],
 [('note text','the only copy of user data','note file on disk')], ['note file after the run/crash','exit status'])
prop('C02','The page cache never changes what a command produces',
 'For any history of creating, editing, renaming, duplicating and deleting notes and running convert or inspect with any mix of cached, uncached and unpruned runs over the same cache directory, each run produces exactly the HTML, inspect output and exit status that a run without any cache would produce from the notes as they are at that moment.',
 ['histories','inputs'],
 'histories of edits and runs, over pages made of every vimwiki element kind, one or several wikis sharing the cache',
 'Tests only call the loader once per file with the cache disabled; a stale, misattributed or lossy cache entry needs a history of runs to be read back.',
 [AST,CONV,INS,'vimwiki-core/src/lang/elements'], [('cache keyed by SHA-1 of the text, page serialised as JSON',AST+':load_wiki_file')],
 [('cache/<sha1>','serialised parse of a page text',AST)], ['html files','inspect JSON','stdout','exit status'])
prop('C03','A damaged or failing cache never changes results',
 'If cache entries are truncated, torn, overwritten with garbage, emptied, replaced by directories, made unreadable, or vanish at any moment, or if reading, writing, listing or removing entries in the existing cache directory fails, convert and inspect still succeed with exactly the result of an uncached run. A damaged entry file of a current page is replaced by a good one on the next run whose cache I/O works.',
 ['fault_sequences','histories'],
 'every kind and position of damage to any subset of entries, and every I/O error at any cache access, in any history',
 'No test ever puts a bad file in a cache directory or makes a cache access fail.',
 [AST], [('errors while loading a cached page fall back to parsing; the bad file is removed and rewritten',AST+':load_wiki_file')],
 [('cache/<sha1>','serialised parse of a page text',AST)], ['html files','inspect JSON','cache directory','exit status'])
prop('C04','After any interruption the next clean run repairs everything',
 'After any sequence of convert, inspect and format runs that were killed at arbitrary points, cut by power loss, or failed by I/O errors or a full disk, one undisturbed convert run over the surviving notes exits successfully and leaves every HTML file that a first run on a fresh machine would create for those notes, each with exactly the content it would have there. No leftover of an interrupted run is ever picked up as a note or changes any page.',
 ['crash_points','fault_sequences','histories'],
 'every prefix of interrupted runs with any surviving subset of unsynced writes',
 'No test interrupts a run; recovery needs a crash at an arbitrary system call followed by a second run on the surviving state.',
 [AST,CONV,FMT], [('cache validation, pruning and unconditional re-render',AST+':load_ast'),('fs::write of html',CONV+':process_file')],
 [('cache/<sha1>','may survive torn',AST)], ['output tree after the recovery run','exit status'])
prop('C05','Success is only reported when all requested output is complete',
 'If convert, inspect or format exits with status 0, then every page of every selected wiki or path has been fully and correctly written to its destination (HTML file, stylesheet, output file, standard output or the note itself), whatever I/O errors, short writes, full disks or closed pipes occurred. Conversely, a run over valid notes and configuration during which no call failed exits with status 0. (Notes below a directory that cannot be listed are skipped by design.)',
 ['fault_sequences','configurations','inputs'],
 'every failing, short or interrupted call on notes, config, templates, outputs and stdout; every combination of subcommand, --stdout, -o, --inline, --include, --include-vimwiki-css and extra paths',
 'No test runs a subcommand, much less with a failing write; a swallowed error only shows under a fault at that very call.',
 [CONV,FMT,INS,LIB,UTL,HCONV], [('io::Result propagated to exit code',LIB+':run'),('walk of the selected wikis',CONV+':convert')],
 [], ['exit status','html/style.css/output files','stdout'])
prop('C06','Notes, configuration and foreign files are never modified',
 'convert, inspect and format without --inline never modify, truncate, rename or delete any note, template or configuration file, and no command creates, changes or deletes anything outside its own destinations: the HTML output paths of the pages it converts (plus the stylesheet when asked), the inspect output file, the notes given to format --inline (with at most one temporary sibling file per note, gone when a run that is not killed ends), and the cache directory; with --no-cache the cache directory is untouched too. This holds in every run, including ones that fail or are killed part-way.',
 ['fault_sequences','crash_points','configurations','histories'],
 'every run of every subcommand and option mix, at every instant, with and without injected faults',
 'Tests never look at what else a run touched; error paths and crash points that write in the wrong place need faults to be reached.',
 [AST,CONV,FMT,INS], [('paths of all mutating calls',AST),('make_output_path','vimwiki-core/src/lang/output/html/config.rs')],
 [], ['every mutating system call with its path','directory tree before/after'])
prop('C07','Pruning removes exactly the stale cache entries',
 'After a successful run with caching and pruning, the cache directory holds an entry for every distinct text of the pages that were loaded and no other file left by earlier runs; with --no-prune-cache no valid earlier entry is removed. An entry belonging to a page of the current run is never removed, and a failure to remove one stale entry does not keep the others.',
 ['histories','configurations','fault_sequences'],
 'histories of edits, deletions and reverts with runs that select different wikis, share a cache between wikis, prune or not, and with unlink faults',
 'No test creates a second cache entry, deletes a note between runs, or runs pruning at all.',
 [AST], [('retain set of checksums; walk and remove',AST+':load_ast')],
 [('cache/<sha1>','serialised parse of a page text',AST)], ['cache directory listing after each run'])
prop('C08','Concurrent runs do not disturb each other',
 'When several convert, inspect and non-inline format runs execute at the same time over the same notes, cache directory and output directory, in any interleaving and even if some are killed, every run that is not killed succeeds and reports the same result as if it had run alone, and a later run still sees only correct cached pages: no cache entry ever mixes the output of several runs. Once all have ended and none was killed, every HTML file they produced is complete and correct.',
 ['schedules','crash_points'],
 'every interleaving at system-call granularity of two to four processes with independent hash seeds, with kills',
 'Tests never start two processes on one cache; the damage needs a particular interleaving of cache writes, reads and removals.',
 [AST,CONV], [('cache entries shared by all processes',AST+':load_wiki_file'),('prune while others run',AST+':load_ast')],
 [('cache/<sha1>','shared mutable state between processes',AST)], ['exit status of each process','html files','inspect stdout','later cached runs'])
prop('C09','Editing notes during a run never mixes page versions',
 'When notes are replaced, deleted or added while convert, inspect or format runs, every output the run produces corresponds as a whole to one version of the note that existed during the run, and an inline format never overwrites a note with a mixture. Editing during a run never leaves a cache entry or output that makes a later undisturbed run produce anything but the current notes.',
 ['schedules','histories'],
 'every point of the run at which an editor atomically replaces, deletes, recreates or adds a note or swaps two notes',
 'Tests never change a file while a run reads it.',
 [AST,CONV,FMT], [('text read once; checksum and parse from the same buffer',AST+':load_wiki_file'),('second directory walk',CONV+':process_path')],
 [('in-memory pages','snapshot taken at load time',AST)], ['html files','stdout','cache entries via later runs'])
prop('C10','Output depends only on the notes and the configuration',
 'For fixed notes, configuration and date, the set of files written and every byte of each HTML file and formatted text is the same in every run: it does not depend on per-process randomness, directory listing order, file metadata, or which other pages were processed before in the same run.',
 ['schedules','inputs','configurations'],
 'every hash seed, every directory order, every subset of sibling pages, pages of every element kind with many attributes',
 'A test runs with one random hash seed and one listing order and compares single-attribute elements only.',
 [HTML,OUTV,CONV,'vimwiki-core/src/lang/output/html/formatter.rs','vimwiki-core/src/lang/elements'], [('iteration over hash maps while writing attributes/cells',HTML),('fresh formatter per page',HCONV)],
 [('per-page formatter state','header ids, seen ids',  'vimwiki-core/src/lang/output/html/formatter.rs')], ['html files','formatted notes'])
prop('C11','Undated pages carry the local calendar date of the run',
 'A page with a %date placeholder shows exactly that date in its HTML; any other page shows the local calendar date, in the configured time zone, of some moment during the run, for any clock value, clock jump, time zone and daylight-saving rule.',
 ['inputs','schedules','configurations'],
 'every wall-clock instant (around midnight, month, year and DST boundaries), clock jumps during the run, time zones east and west of UTC',
 'The tests compare with the real clock of the machine in one time zone; they cannot choose the instant or the zone.',
 [HCONV], [('Local::now() fallback',HCONV+':to_html_page')], [], ['date in the HTML file'])
prop('C12','Every run ends, whatever keeps failing',
 'Under any persistent fault (every call of some kind on some kind of file failing, interrupted a bounded number of times, or short, for the whole run) and any state of the cache directory, every command terminates by itself within a bounded number of system calls proportional to its input, with exit status 0 or an ordinary failure status: it neither panics nor dies from a signal.',
 ['fault_sequences','histories'],
 'every persistent fault on every kind of call and path, over any cache and note content',
 'Retry loops and panics on error paths are only reached when calls keep failing; tests never inject failures.',
 [AST,CONV,FMT,INS,LIB], [('error propagation without retry',AST+':load_wiki_file')], [], ['number of calls','exit status or signal'])
prop('C13','Threads parsing and rendering at once do not affect each other',
 'When any number of threads use the library at the same time to parse pages and render them to HTML or vimwiki text, under any interleaving, each call returns exactly what it returns when run alone in a fresh process, without panic, deadlock or unbounded delay, whatever was parsed or rendered before on that thread or any other.',
 ['schedules','histories'],
 'every interleaving (at basic-block granularity) of two to four threads parsing and rendering arbitrary pages, first use of every lazily built table included',
 'Each test parses one page on one thread; shared or thread-local state corrupts results only under a particular interleaving or history.',
 [PARS,HTML,'vimwiki-core/src/lang/output/html/formatter.rs'], [('lazy_static syntax and theme sets',HTML),('no state shared between parses',PARS)],
 [('lazily initialised globals','first use may be concurrent',HTML)], ['returned pages, HTML and text per thread'])
prop('C14','Parse timing statistics lose and invent nothing',
 'With the timekeeper feature, under any interleaving of parsing threads with enabling, disabling, toggling, reporting and clearing, every timed parser call made while collection is enabled appears exactly once over all reports unless explicitly cleared, nothing is counted while it is disabled, an even number of toggles restores the state, and collecting never changes what a parse returns.',
 ['schedules','histories'],
 'every interleaving (at basic-block granularity) of parsing threads with control threads',
 'No test exercises the timekeeper module, and lost updates need two threads inside the same few instructions.',
 [TK], [('AtomicBool flag + Mutex<HashMap> totals',TK)],
 [('enabled flag','whether calls are counted',TK),('totals','count and time per context',TK)], ['printed reports','is_enabled','parse results'])
prop('C15','Trouble asking vim for wikis never fails or alters a run',
 'When the command asks nvim or vim for its wiki list (no wikis configured, or --merge), then if spawning, waiting for or reading from that helper fails, or it crashes or answers with garbage, the command completes exactly as if vim had listed no wikis; when it answers, its wikis come first, followed by the configured ones.',
 ['fault_sequences','configurations'],
 'every failure of the helper process: not found, spawn error, killed, non-zero exit, empty, truncated or malformed answer, read error',
 'Tests never run the loading path with a helper; it needs a helper process that fails at a chosen point.',
 [UTL], [('error is reported as a warning and ignored',UTL+':load_html_config')], [], ['exit status','html files','helper spawn requests'])

# --- pure functions of their input: no schedule, clock, fault or history in them
def pure(id,title,statement,files,mech,why='Unit tests sample a few inputs of an unbounded input language.'):
    prop(id,title,statement,['inputs'],'every UTF-8 text / every element tree / every configuration',why,files,[(mech,files[0])])
pure('C20','Parsing accepts every text and never panics',
 'Parsing any UTF-8 text as a vimwiki page returns a page or an error without panicking, overflowing the stack or taking super-polynomial time.',[PARS],'nom parsers')
pure('C21','Regions locate the source text of every element',
 'Every element of a parsed page carries the byte region of the source text it came from: regions are in bounds, nested within their parents, ordered and non-overlapping between siblings.',[PARS,'vimwiki-core/src/lang/elements/location'],'Located/Region')
pure('C22','Vimwiki output parses back to the same page',
 'Rendering any page to vimwiki text and parsing it again gives an equal page.',[OUTV,PARS],'VimwikiFormatter')
pure('C23','Formatting is idempotent',
 'Formatting text that is already formatted with the same configuration changes nothing.',[OUTV],'VimwikiFormatter')
pure('C24','HTML output escapes user text and is well formed',
 'In the HTML of any page, user text outside of explicit raw placeholders is escaped, tags are balanced and attribute values cannot break out of their quotes.',[HTML],'voca_rs escape')
pure('C25','Links resolve to the file their target is converted to',
 'The href generated for a link to a page of the same or another configured wiki designates the location where converting that page writes its HTML.',['vimwiki-core/src/lang/output/html/utils.rs','vimwiki-core/src/lang/output/html/config.rs'],'resolve_link / make_output_path')
pure('C26','Header ids in a page are unique and stable',
 'All ids in one HTML page are distinct and table-of-contents links refer to existing ids.',['vimwiki-core/src/lang/output/html/formatter.rs'],'ensure_unique_id')
pure('C27','Element trees keep their structural invariants',
 'Tables, lists and definition lists built through the API or the parser keep their invariants (spans point at cells, items ordered, iteration covers every child exactly once), and into_owned/borrow conversions preserve equality.',['vimwiki-core/src/lang/elements'],'element constructors and iterators')
pure('C28','Compile-time macros build the page the runtime parser builds',
 'A page written with a vimwiki macro equals the page parsed at run time from the same text.',['vimwiki_macros/src'],'tokenize trait')
pure('C29','The WebAssembly API mirrors the Rust API',
 'Every value exposed to JavaScript equals the value of the Rust API for the same input.',['vimwiki-wasm/src'],'wasm_bindgen wrappers')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
