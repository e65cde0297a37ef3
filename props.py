#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it to regenerate both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None), note=note))

prop('C01', 'blogc exit 0 means the requested page was written, complete and right',
 'When blogc exits successfully, the output file or standard output holds exactly the page that its sources, template and variables define, byte for byte. This stays true when reads and writes are short, when library calls fail, when memory runs out or when the disk fills up: such a run may fail, but it may not succeed with a wrong, shortened or missing page. Without any such trouble, a valid request never fails.',
 ['inputs', 'fault_sequences', 'schedules'], 'All source lists, variables, templates, output destinations, delivery of standard input, and all placements of I/O, allocation and disk-full faults.',
 'The tests render fixed inputs on a healthy system; no test makes a read, write, close or allocation fail, so a run that silently shortens a page passes all of them.',
 ['src/blogc/main.c', 'src/blogc/loader.c', 'src/blogc/renderer.c', 'src/common/file.c', 'src/common/utils.c', 'src/common/stdin.c'],
 [('whole-file reader', 'src/common/file.c'), ('rendering and writing of the output', 'src/blogc/main.c')], ['exit status', 'output file', 'standard output'], note='reference renderer over a fixed family of templates')
prop('C02', 'blogc failure is reported, terminates, and leaves no damaged output behind',
 'When a page cannot be built because of invalid input or a system failure, blogc ends with a non-zero status and says why, in bounded time and without memory errors. At every instant, and after any failure or kill, the output path holds either what it held before or the complete new page, and no temporary file stays behind after an orderly end.',
 ['inputs', 'fault_sequences', 'crash_points'], 'All invalid requests, all placements of I/O, allocation and disk-full faults, all kill points, pre-existing and fresh destinations.',
 'Failing requests are tested one at a time on a healthy system; no test observes the destination while the program runs, kills it, or fails a system call.',
 ['src/blogc/main.c', 'src/common/file.c', 'src/blogc/loader.c', 'src/common/utils.c', 'src/common/error.c'],
 [('temporary file and rename', 'src/blogc/main.c'), ('error objects', 'src/common/error.c')], ['exit status', 'standard error', 'output path at every file-system change'], note='invariant checked at every simulated file-system change')
prop('C03', 'A source list on standard input means the same however it is delivered',
 'A list of source files sent to blogc on standard input produces the same result as the same list given as arguments, in the same order and complete. Chunk boundaries, pauses, short reads, line ending style, blank lines, comments and a missing final newline make no difference.',
 ['inputs', 'schedules'], 'All lists and all ways of segmenting and timing their delivery through a pipe.',
 'Tests feed short lists that arrive in one read; boundaries and pauses depend on pipe capacity and scheduling.',
 ['src/blogc/filelist-parser.c', 'src/common/stdin.c', 'src/blogc/main.c'], [('standard input reader', 'src/common/stdin.c'), ('list parser', 'src/blogc/filelist-parser.c')], ['exit status', 'output'], note='differential against the argument list')
prop('C04', 'blogc-make exit 0 means every requested output is complete and current',
 'When blogc-make exits successfully, every output that the requested rules define exists and holds what the current sources, templates and settings define, whatever was built or edited before. If a source is missing or wrong, a rule is unknown, or a step fails, the exit status is non-zero and something is reported. Valid builds on a healthy system never fail.',
 ['histories', 'configurations', 'fault_sequences', 'inputs'], 'All sites, settings, rule selections and histories of edits and builds, with faults in any process of the build.',
 'Tests run single builds of one fixed site; staleness needs a history, and wrong success needs a failing step in some child process.',
 ['src/blogc-make/rules.c', 'src/blogc-make/exec.c', 'src/blogc-make/ctx.c', 'src/blogc-make/settings.c', 'src/blogc-make/atom.c', 'src/blogc-make/exec-native.c', 'src/blogc-make/main.c'],
 [('need-rebuild comparison of modification times', 'src/blogc-make/rules.c'), ('rule execution', 'src/blogc-make/rules.c'), ('running blogc', 'src/blogc-make/exec.c')], ['exit status', 'output directory'], note='refinement against a reference model of the site')
prop('C05', 'A failed, killed or overtaken build is repaired by the next one',
 'After a build that failed, was killed (alone or with all its children) or ran while sources were being edited, one further undisturbed build brings every output to what the sources define and exits successfully. No leftover of the disturbed build is ever taken for an up-to-date output.',
 ['crash_points', 'fault_sequences', 'histories', 'schedules'], 'All kill points and fault placements in blogc-make and its children, all timings of concurrent edits, any number of disturbed builds in a row.',
 'No test interrupts a build, lets a step fail half-way, or edits a file while a build runs.',
 ['src/blogc-make/exec.c', 'src/blogc-make/exec-native.c', 'src/blogc-make/rules.c', 'src/blogc-make/ctx.c', 'src/blogc/main.c'],
 [('atomic replacement of outputs', 'src/blogc/main.c, src/blogc-make/exec-native.c'), ('complete input before start', 'src/blogc-make/exec.c'), ('backdating of overtaken outputs', 'src/blogc-make/ctx.c')], ['output directory after recovery'], note='an edit during a build that is also killed is not combined in one build')
prop('C06', 'A build does exactly what is needed',
 'A build right after a successful one regenerates nothing and leaves every output untouched. After editing a single source, only outputs that depend on it are rewritten.',
 ['histories', 'configurations', 'schedules'], 'All sites, settings and histories of edits and builds.',
 'Tests do not observe which outputs a second build rewrites.',
 ['src/blogc-make/rules.c', 'src/blogc-make/ctx.c'], [('need-rebuild comparison', 'src/blogc-make/rules.c')], ['inode and modification record of every output', 'programs started'], note='identity and modification record of each output compared')
prop('C07', 'Cleaning removes exactly what was built, and nothing else',
 'The clean rule removes every file the current settings build and the directories this leaves empty, and nothing else: no foreign file, no directory that still holds something, and nothing outside of the output directory. No configuration of the output directory makes building or cleaning touch paths outside of it. If it cannot remove something, it fails.',
 ['histories', 'configurations', 'fault_sequences'], 'All sites, spellings of the output directory, foreign files placed anywhere, and faults while cleaning.',
 'Tests clean one default layout; foreign files, odd output directory spellings and failing removals are not tried.',
 ['src/blogc-make/rules.c', 'src/blogc-make/exec-native.c', 'src/blogc-make/ctx.c'], [('list of built files', 'src/blogc-make/rules.c'), ('removal with empty parents', 'src/blogc-make/exec-native.c')], ['whole simulated disk before and after'], note='whole disk compared before and after')

NA = []
def na(id, title, statement, files, why, reason):
    prop(id, title, statement, ['inputs'], 'All inputs of the function.', why, files, [('parser or pure function', files[0])]); NA.append((id, reason))
PURE = 'A pure function of its argument: no schedule, clock, I/O, crash or second party can change the result, so simulation with fault injection has nothing to vary; input-space techniques decide it.'
na('N01', 'Source markup translates to the documented HTML', 'Every source text translates to the HTML the markup language documents, with special characters escaped exactly where documented.', ['src/blogc/content-parser.c'], 'The unit tests sample the input space of the markup.', PURE + ' (Pages with most of the markup are compared end to end under C01, and hostile sources are covered by C02.)')
na('N02', 'Templates and source headers parse to exactly their documented meaning', 'Every template and source header is either accepted with its documented meaning or rejected with the position of the error.', ['src/blogc/template-parser.c', 'src/blogc/source-parser.c', 'src/blogc/renderer.c'], 'The unit tests sample the input space.', PURE + ' (Random valid templates are evaluated and compared under C01; hostile ones are covered by C02.)')
na('N03', 'Settings files parse to exactly their documented meaning', 'Every settings file is either accepted with its documented meaning or rejected with the position of the error.', ['src/common/config-parser.c', 'src/blogc-make/settings.c'], 'The unit tests sample the input space.', PURE + ' (Randomly written settings files are compared by their effect under C04, C06, C07 and C10; damaged ones are covered by C04.)')
na('N04', 'Dates are validated and formatted correctly', 'Every well-formed date is formatted as the format asks, and every malformed one is rejected.', ['src/blogc/datetime-parser.c'], 'The unit tests sample the input space.', PURE)
na('N05', 'Quoting, UTF-8 validation and string helpers are exact', 'Shell quoting round-trips every string, UTF-8 validation accepts exactly valid text, and the string, list and trie helpers behave as their containers promise.', ['src/common/utils.c', 'src/common/utf8.c', 'src/common/sort.c'], 'The unit tests sample the input space.', PURE + ' (Their behaviour under allocation failure is covered by C01, C02 and C04.)')

exec(open(HERE + '/props2.py').read()) if os.path.exists(HERE + '/props2.py') else None

HOW = globals().get('HOW', {}); CAUGHT = globals().get('CAUGHT', {})

if __name__ == '__main__':
    P.sort(key=lambda p: p['id']); nas = dict(NA)
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
    m = dict(version=1, setup_cmd='python3 build.py', checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA],
        notes='No hooks in /repo: the seam is the C library surface, taken over by renaming symbols in object files built from /repo. Run a failure again with: $(python3 build.py sim) replay, see DESIGN.md.')
    for p in P:
        if p['id'] in nas: continue
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'], technique='deterministic simulation with fault injection (seeded schedule and fault search over the real programs)',
            level='exploration', level_note='Seeded search over simulated executions of the real code (' + p['note'] + '). A clean result is evidence over the runs counted in the evidence file, not proof; a simulated crash kills processes and keeps the file system; libc, the kernel and the stub programs are simulator models.'))
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
    import design; design.main()
