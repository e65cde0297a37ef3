# More of props.py: how each property is decided (for DESIGN.md), and further properties.
HOW = {}
CAUGHT = {}  # seeded change -> what catches it, where this is not simply its own property's check
HOW['C01'] = 'Scenario `blogc` (sim/scn_blogc.cpp): one invocation of the real blogc over generated sources, template, variables, output destination and list delivery, with faults in reads, writes, close, rename, allocation, or a full disk. Oracle: a reference renderer (sim/model.cpp): a fixed template or a random one (sim/tmpl.cpp: nested conditionals, iterators, all blocks, whitespace cleaners, truncated and formatted variables) and sources with headings, lists, quotes, code, links, images, emphasis, the table of contents, excerpts, paging, sorting, reversal and tag filters; exit 0 must leave exactly the reference page; a fault-free valid request must exit 0. Bounds: up to 200 sources, up to 4 faults per run. Cost: about 1,500 runs per second. Tests cannot reach it because none makes a call fail.'
HOW['C02'] = 'Same scenario with invalid requests (21 kinds), hostile sources and templates (sim/garb.cpp: unmatched, truncated, nested and repeated markup and statements, invalid UTF-8, NUL bytes; every access outside of live heap memory is detected) and kills at any call or memory access. Oracle: non-zero exit with a diagnostic, no memory error, no death by signal other than abort after failed allocation, bounded steps; an invariant checked at every file-system change: the output path holds the old or the complete new content; no temporary file after an orderly end.'
HOW['C03'] = 'Same scenario: the list is written to a pipe in chunks with pauses, by a feeder with its own seed, with comments, blank lines, CRLF, indentation, missing final newline, and names containing characters special to shells, lists and URLs. Oracle: the reference page of the argument list.'
HOW['C04'] = 'Scenario `mk` (sim/scn_mk.cpp): a generated site and a history of edits, builds of rule subsets, faulty builds and cleans by the real blogc-make, which runs the real blogc through the simulated shell. Oracle: a reference model of the site (sim/mk.cpp): exit 0 means that every output of the rules run equals the model; failures must be reported; valid fault-free builds must succeed. The settings file is written in random but equivalent ways (quoting, escapes, comments, section order, CRLF, BOM) with all documented settings, and damaged ones (sim/garb.cpp) must be refused or built without crash and in time. Bounds: up to 5 posts, 4 builds, 5 faults per run; about 150 runs per second.'
HOW['C05'] = 'Same scenario (in part of it sources, templates and copied files are symbolic links to files elsewhere, and process ids repeat as in a container) with kills of one process or of the whole group, SIGINT, faults and concurrent edits during earlier builds. Oracle: the next undisturbed build exits 0 and every output equals the model.'
HOW['C06'] = 'Same scenario: after each successful full build the next one must change no inode and start no blogc that writes; after one edit only outputs depending on it (by the model) may change. '
HOW['C07'] = 'Same scenario with foreign files, odd OUTPUT_DIR spellings, and faults while cleaning. Oracle: the whole simulated disk before and after, against the set of built files of the model.'

prop('C08', 'Watching keeps the site current and stops only when asked',
 'While blogc-make watches, every edit, addition or removal of sources, templates and settings ends up in the outputs within a bounded time, whatever the build was doing when the edit came. Passing trouble (files half written, missing or invalid, failing system calls, a full disk, a killed build) never ends watching and never leaves stale or damaged outputs once it is over. While nothing changes, nothing is rewritten. An interrupt at any moment ends blogc-make and all its children.',
 ['histories', 'schedules', 'fault_sequences', 'crash_points'], 'All sites, edit histories and timings relative to the running build, all placements of passing faults, all moments of an interrupt.',
 'Watching is endless and timed, so the tests do not run it at all.',
 ['src/blogc-make/reloader.c', 'src/blogc-make/rules.c', 'src/blogc-make/ctx.c', 'src/blogc-make/exec.c', 'src/blogc-make/exec-native.c'],
 [('reload and rebuild loop, interrupt handling', 'src/blogc-make/reloader.c'), ('reloading of settings and file lists', 'src/blogc-make/ctx.c'), ('backdating of overtaken outputs', 'src/blogc-make/ctx.c')], ['output directory over time', 'processes alive', 'exit of blogc-make'], note='liveness stated as convergence within 15 simulated seconds after the last edit or fault')
prop('C09', 'blogc-make runserver serves the current site and ends together with its server',
 'blogc-make runserver builds the site, serves it on the requested address, and keeps what is served current while sources change. If the server cannot start or dies, blogc-make notices, ends, and reports failure. An interrupt at any moment ends both, leaving no process behind.',
 ['schedules', 'fault_sequences', 'histories', 'crash_points', 'configurations'], 'All moments and ways in which the server, the builds or the user end things, all edits while serving, all addresses and thread counts.',
 'The tests start no server from blogc-make; deaths and interrupts at particular points of two processes and two threads need control of the schedule.',
 ['src/blogc-make/httpd.c', 'src/blogc-make/reloader.c', 'src/blogc-make/rules.c', 'src/blogc-make/exec.c', 'src/blogc-runserver/httpd.c', 'src/blogc-runserver/main.c'],
 [('server thread', 'src/blogc-make/httpd.c'), ('stop flag shared by threads and signal handler', 'src/blogc-make/reloader.c'), ('serving', 'src/blogc-runserver/httpd.c')], ['exit status of blogc-make', 'processes alive', 'answers of the server'], note='server and builder run together in one simulated machine')
prop('C11', 'Long runs and failed runs leak nothing',
 'However long blogc-make watches and whatever fails on the way, its open files, memory and child processes stay bounded. A run that ends, successfully or not, leaves no running child and no temporary file behind, unless it was killed.',
 ['histories', 'fault_sequences', 'schedules'], 'All histories of edits, rebuilds and faults, all ways in which a run ends.',
 'A single short build shows neither growth nor what a failing step leaves behind.',
 ['src/blogc-make/reloader.c', 'src/blogc-make/exec.c', 'src/blogc-make/exec-native.c', 'src/blogc-make/ctx.c', 'src/blogc-make/rules.c', 'src/blogc-make/atom.c'],
 [('child process plumbing', 'src/blogc-make/exec.c'), ('temporary feed template', 'src/blogc-make/atom.c'), ('reloading', 'src/blogc-make/reloader.c')], ['descriptors, heap and children of blogc-make', 'whole simulated disk'], note='exact heap and descriptor accounting by the simulator')
prop('C12', 'Every HTTP request gets the right answer, however it is sent and whatever else is going on',
 'For every request, blogc-runserver answers with the status, type, length and exact current bytes that its document root defines: files, directory indexes, redirections to the final slash that lead to the index, 404 for what does not exist, 403 for a directory without an index, 405 for other methods and 400 for what is no HTTP request. The answer does not depend on how the request is cut into segments, how slowly it is sent or its answer read, how many other requests are running, or files being replaced meanwhile. If reading a file fails, the answer is an error, never wrong or shortened content presented as complete. The answer to a complete request comes at once, it waits for no timeout.',
 ['schedules', 'inputs', 'fault_sequences', 'configurations'], 'All document roots, requests, segmentations, client speeds, numbers of threads and concurrent clients, replacement of served files, and failing file or socket operations.',
 'The tests only call the request line reader and MIME lookup with fixed values; no test opens a connection.',
 ['src/blogc-runserver/httpd.c', 'src/blogc-runserver/httpd-utils.c', 'src/blogc-runserver/mime.c', 'src/common/file.c', 'src/common/utils.c'],
 [('request reading', 'src/blogc-runserver/httpd-utils.c'), ('request handling', 'src/blogc-runserver/httpd.c')], ['bytes received by every client'], note='reference model of the document root; clients are simulator actors')
prop('C13', 'Nothing outside of the document root is ever served',
 'No request, however written or timed, makes blogc-runserver send content of a file outside of its document root: not by parent directories in any encoding, not by siblings whose names begin with the name of the root, not by symbolic links (to files, directories or as index), and not because some system call failed.',
 ['inputs', 'configurations', 'fault_sequences', 'schedules'], 'All document roots with their surroundings and symbolic links, all request paths, all concurrent requests and failing calls.',
 'No test requests anything from a running server.',
 ['src/blogc-runserver/httpd.c', 'src/blogc-runserver/httpd-utils.c', 'src/blogc-runserver/mime.c'],
 [('containment of the resolved path', 'src/blogc-runserver/httpd.c'), ('URL decoding', 'src/blogc-runserver/httpd-utils.c')], ['bytes received by every client'], note='links that are switched between the resolution and the opening of one request are not covered')
prop('C14', 'The web server stays available',
 'No client, whether it stalls, disconnects, resets, sends garbage or never reads, and no passing failure of a system call ends blogc-runserver, makes it answer others wrongly, or keeps it from answering them within a bounded time. When all clients are gone it holds no more memory, descriptors or uncollected threads than before. It listens at exactly the address and port it was told to, at another address of the named host only if the first cannot be had.',
 ['schedules', 'inputs', 'fault_sequences', 'histories'], 'All mixes of misbehaving clients, all placements of failing accept, thread creation, socket and file operations, all numbers of threads.',
 'No test opens a connection, and none makes a call fail.',
 ['src/blogc-runserver/httpd.c', 'src/blogc-runserver/httpd-utils.c', 'src/blogc-runserver/main.c'],
 [('accept loop and thread slots', 'src/blogc-runserver/httpd.c'), ('socket timeouts', 'src/blogc-runserver/httpd.c')], ['server process', 'answers after the trouble', 'descriptors, heap and threads of the server'], note='bounded waiting: 150 simulated seconds per stalled client; a client that keeps sending one byte at a time is not covered')
HOW['C08'] = 'Scenario `watch` (sim/scn_watch.cpp): the real `blogc-make watch` on a generated site; an editor actor applies timed edits, some half written first, and breaks and repairs the site; faults begin during the first build and end after a while; in part of the runs the group gets SIGINT at any call or mutex operation. Oracle: still running until interrupted; all outputs equal the model within 15 simulated seconds after the last edit or fault; then no inode changes while idle; all processes gone within 20 simulated seconds after the interrupt.'
HOW['C09'] = 'Scenario `serve`: the real `blogc-make runserver`, its thread, blogc and blogc-runserver together, with edits, a missing server program, a busy port, bad arguments, a server killed at any time and SIGINT at any call. Oracle: blogc-make ends with non-zero status when the server failed or died; after an interrupt no process is left; otherwise simulated clients get exactly the pages of the model.'
HOW['C11'] = 'Scenarios `watch` and `mk`: the simulator counts descriptors, live heap bytes and children of blogc-make exactly. Oracle: after convergence ten further idle rounds do not change them; after a run that was not killed no child runs and no temporary file is left.'
HOW['C12'] = 'Scenario `http` (sim/scn_http.cpp): the real blogc-runserver with 1 to 6 threads on a generated document root; up to 9 concurrent clients with segmented requests, pauses, small socket buffers, short reads and writes, TCP resets that discard undelivered data when the server closes with unread input, files replaced by rename, and preemption at memory accesses of the request threads. Oracle: a model of the document root gives the expected answer; under faults an error is accepted, a wrong complete answer is not; without faults and misbehaving clients an answer that comes more than 5 simulated seconds later than all pauses of the clients together allow is late. About 1,000 runs per second.'
HOW['C13'] = 'Same scenario with traversal requests and symbolic links of all kinds. Every file outside of the root contains a marker that must never reach a client.'
HOW['C14'] = 'Same scenario with stalled, resetting, non-reading and garbage-sending clients (some stay forever) and faults in accept, pthread_create, socket and file calls. Oracle: afterwards plain requests are answered correctly within the bound; the server lives; descriptors, heap bytes and uncollected threads are back at the level of the warm-up. Address and port come from options (joined or separate), the environment or the defaults; a host name may have two addresses of which the first cannot be used.'
PR='src/blogc-git-receiver/pre-receive.c'; SHC='src/blogc-git-receiver/shell.c'
prop('C15', 'The deployed website is complete at every instant',
 'From the first successful deployment on, whatever is pushed, rebuilt, interrupted, killed or failing, and however many pushes run at once, the website symbolic link always leads to one complete build: the files of the commit deployed before or of the one being deployed, never nothing, never a mixture, never a part.',
 ['crash_points', 'schedules', 'fault_sequences', 'histories'], 'All commits, histories of pushes, manual rebuilds and clock jumps, all kill points and fault placements in the receiver and in everything that it runs, all interleavings of concurrent pushes.',
 'The tests look at the link only after a hook has ended, on a healthy system, one push at a time.',
 [PR, 'src/blogc-git-receiver/settings.c', 'src/blogc-make/rules.c', 'src/blogc/main.c'], [('replacement of the website symbolic link', PR), ('naming of build directories', PR)], ['the tree behind the website link at every file-system change'], note='invariant after every simulated file-system change')
prop('C16', 'An accepted push is deployed, a declined one changes nothing, and the pusher learns which',
 'If a push is accepted and updates the master branch (or main, when master is not pushed), the website shows exactly the pushed commit, unless a warning says why not. If the build fails, the commit is broken or anything else goes wrong, the push is declined with a message and the website keeps showing what it showed. Valid pushes on a healthy system are accepted, whatever other refs they update.',
 ['inputs', 'fault_sequences', 'histories', 'schedules'], 'All commits (built by blogc-make or by make, broken, without build rules), all lists of refs, all histories, all kills and failing calls in the receiver, git, tar, make, blogc-make and blogc.',
 'The tests push fixed commits with everything working; a failing copy of the commit, a short list of refs or a failing link is never tried.',
 [PR, 'src/blogc-git-receiver/pre-receive-parser.c', 'src/common/stdin.c', 'src/blogc-git-receiver/settings.c'], [('pre-receive hook', PR), ('selection of the commit', 'src/blogc-git-receiver/pre-receive-parser.c')], ['answer to the pusher', 'messages', 'website tree'], note='concurrent pushes to one repository: the website ends as one of the accepted ones')
prop('C17', 'Deployments clean up after themselves and remove nothing else',
 'After a push or rebuild has ended by itself, successfully or not, only the builds that are deployed remain, and neither temporary directories nor files beside the website link are left. Nothing outside of them is ever removed or changed: not where symbolic links inside a build or a commit lead, not a directory that the website link led to before the first deployment, and not because a call fails.',
 ['inputs', 'fault_sequences', 'histories', 'crash_points'], 'All commits, with symbolic links of all kinds inside of the commit and of the build, all previous targets of the website link, all failing calls and kills.',
 'The tests remove plain builds without links, with every call succeeding.',
 [PR], [('recursive removal', PR), ('removal of the previous build', PR)], ['whole simulated disk'], note='leftovers are excused after kills, failing removals and concurrent pushes to the same repository; damage elsewhere never is')
prop('C18', 'A push never bypasses the hooks',
 'Whatever happened before to a repository (pushes at the same time, interrupted creation, killed pushes, old or broken hook links, no hooks directory) and however the receiver was started (as login shell, or by authorized_keys, with or without a path), every accepted push ran the receiver\'s hooks, the hooks end up installed with nothing else beside them, and a valid push on a healthy system is neither refused nor fails.',
 ['schedules', 'crash_points', 'histories', 'configurations'], 'All interleavings of concurrent pushes to one repository, all kill points and fault placements while a repository is created and its hooks are installed.',
 'The tests call the receiver once per repository, never twice at the same time, and never interrupt it.',
 [SHC, 'src/blogc-git-receiver/main.c'], [('creation of the repository and installation of the hooks', SHC)], ['answer to the pusher', 'hooks run by the modelled git'], note='concurrent creation of a repository that does not exist yet may fail, but not silently bypass the hooks')
prop('C19', 'After an accepted push the mirror equals the repository, or a warning says that it does not',
 'For a repository with a mirror, configured in the settings file or in the repository, every accepted push leaves all branches of the mirror equal to those of the repository, or prints a warning. The name of the mirror is taken literally. Mirroring, successful or not, now or repeated by hand, never changes the website or the verdict of the push.',
 ['configurations', 'fault_sequences', 'histories'], 'All mirror names and ways to configure them, all histories of pushes, including removed branches, all failing calls.',
 'The tests check one push to one plainly named mirror and never make anything fail.',
 ['src/blogc-git-receiver/post-receive.c', 'src/blogc-git-receiver/settings.c'], [('post-receive hook', 'src/blogc-git-receiver/post-receive.c'), ('lookup of the repository in the settings', 'src/blogc-git-receiver/settings.c')], ['branches of the mirror', 'messages'], note='the mirror is a directory; network transports are represented by an unreachable one')
prop('C20', 'Repositories are isolated, and commands reach nothing outside of them',
 'A push or rebuild of one repository never changes the website of another, also when they run at the same time, in the same second, with the same commit. No command sent to the receiver as login shell, however quoted, runs anything else, or serves, creates or changes anything outside of the repositories directory, and only pushes create repositories.',
 ['inputs', 'schedules', 'histories', 'configurations'], 'All repository names and command lines, all interleavings of pushes to several repositories that share one builds directory, all clock jumps.',
 'The tests parse fixed command lines and push to one repository at a time.',
 ['src/blogc-git-receiver/shell-command-parser.c', SHC, PR, 'src/common/utils.c', 'src/blogc-git-receiver/settings.c'], [('command line parser', 'src/blogc-git-receiver/shell-command-parser.c'), ('shell quoting', 'src/common/utils.c'), ('build directory names', PR)], ['whole simulated disk', 'programs run'], note='symbolic links placed by the owner inside of the repositories directory are followed')
prop('C21', 'Visitors of a deployed website see whole pages, old or new',
 'While blogc-runserver serves the website link, every visitor gets whole pages: until the website is switched to a new build a page is answered exactly as in the version deployed before, and from that moment on, without a restart of the server, exactly as in the new one. Pushes that fail, are declined or are killed change nothing for visitors, and pushing never makes the server unavailable. Only requests under way at the very moment of a switch may get an error or either version.',
 ['schedules', 'histories', 'fault_sequences', 'crash_points'], 'All interleavings of visitors with pushes and rebuilds, all histories of pushes, all failures of a deployment.',
 'No test runs the web server together with a deployment, and what a visitor gets depends on the moment at which the link is switched.',
 ['src/blogc-runserver/httpd.c', PR, 'src/blogc-make/rules.c'], [('lookup of the document root', 'src/blogc-runserver/httpd.c'), ('atomic switch of the website link', PR)], ['HTTP answers over time'], note='versions are told apart by the content behind the link at each moment')
prop('C22', 'A manual rebuild reproduces the deployed commit',
 'Running the installed pre-receive hook by hand, from any directory, builds the last deployed commit again and deploys it; the website shows the same files as before, from a new build. If it fails or is killed, or nothing was ever deployed, it says so and the website stays as it was.',
 ['histories', 'fault_sequences', 'crash_points'], 'All histories of pushes, rebuilds and clock jumps, all ways to call the hook, all kills and failing calls.',
 'The tests rebuild once after one push with everything working.',
 [PR], [('recovery of the commit from the website link', PR)], ['exit status', 'website tree'])
_push='Scenario `push` (sim/scn_push.cpp): the real blogc-git-receiver as login shell and hooks, the real blogc-make and blogc, and modelled git, git-shell, tar, make and sh; generated commits (blogc sites, Makefiles, symbolic links, slow and broken builds), lists of refs, repositories, settings, clock jumps; pushes and manual rebuilds one after the other or overlapping; kills, failing calls and a full disk in any of the processes. '
HOW['C15']=_push+'Oracle: at every file-system change the tree behind each website link equals exactly the tree of the commit deployed before or of one being pushed.'
HOW['C16']=_push+'Oracle: the answer (`ok`/`ng`) that the modelled git gives to the pusher against the tree behind the link, and messages on standard error.'
HOW['C17']=_push+'Oracle: content of the builds directory, /tmp and the directory of the link after every group; a hash over /precious, /srv/old, /etc, /usr, which links in commits and builds lead to.'
HOW['C18']=_push+'Oracle: the modelled git records a push for which it found no hook; hooks directory after every push; valid pushes succeed also at the same time and after interrupted ones.'
HOW['C19']=_push+'Oracle: branches of the mirror directory against those of the repository; a missing update needs a warning.'
HOW['C20']=_push+'Plus hostile command lines. Oracle: website of every other repository, entries of the base directory, guarded trees and what git-shell was asked to serve.'
HOW['C21']=_push+'In addition the real blogc-runserver serves the website link of the repository, and visitors request random pages of all commits before, during and after pushes. Oracle: the file trees that were behind the link while each request ran; one version means an exact answer is required.'
HOW['C22']=_push+'Oracle: same tree behind a new link target on success; unchanged link otherwise.'
prop('C10', 'blogc-make runs its commands faithfully',
 'Every command that blogc-make runs gets exactly the arguments, the source list and the locale that the settings define, whatever characters they contain and however long they are, and no other open descriptors than its standard streams. However much a command writes, on whichever stream, in whatever order and pace, and however little of its input it reads, blogc-make neither blocks nor dies, and shows everything that the command wrote as errors, complete and in order. A command that fails, dies of a signal or cannot be started makes blogc-make fail and say so; otherwise blogc-make succeeds and the outputs are right.',
 ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'All settings values, list sizes, behaviours of the commands (amount, order and pace of output, early closing of streams, exit statuses, signals), pipe capacities, short transfers, and failing calls.',
 'The tests build command lines as strings and compare them; none runs a command that writes much, stops reading, closes its streams or dies, and whether a pipe fills up or a read is short depends on sizes and scheduling.',
 ['src/blogc-make/exec.c', 'src/blogc-make/rules.c', 'src/common/utils.c', 'src/blogc-make/atom.c'], [('process start, pipes and collection', 'src/blogc-make/exec.c'), ('shell quoting', 'src/common/utils.c')], ['argument vectors and descriptors of commands', 'standard error', 'exit status', 'outputs'], note='blogc is replaced by a reference implementation that misbehaves as told')
HOW['C10']='Scenario `plumb` (sim/scn_plumb.cpp): the real blogc-make runs a stand-in for blogc, which renders with the reference model from the arguments and the input it really got, and before and after that writes up to 400 KB to its streams, alternates between them, sleeps, closes them, ignores its input, exits with any status or dies of a signal, as the plan says; settings hold values and prefixes special to shells and formats, lists of up to 900 sources; pipes of 4 to 64 KB, short reads, stalls, failing calls. Oracle: outputs equal the model; every byte of error output appears in order; statuses; descriptor table and locale of each command; always terminates.'
prop('C23', 'A page tells the truth about the build that made it',
 'The predefined variables that describe a build are right for that very run of blogc, and one page never shows two values of one of them. BLOGC_SYSINFO_DATETIME is a GMT date and time that the clock showed while the run lasted, in every time zone. BLOGC_SYSINFO_USERNAME is the login name from LOGNAME, BLOGC_SYSINFO_HOSTNAME the name of the host, BLOGC_RUSAGE_CPU_TIME and BLOGC_RUSAGE_MEMORY an amount that the system reported during the run, in the unit shown. BLOGC_SYSINFO_INSIDE_DOCKER is 1 if /proc/1/cgroup can be read and contains "/docker/", and undefined otherwise. BLOGC_VERSION is the version that blogc -v shows. A variable whose source is missing is undefined and never makes a build fail. This holds for a plain or truncated variable, in ifdef, ifndef and if, and as the list of a foreach, inside and outside of blocks, wherever in the template the variable is used first. A value given with -D, or by a source inside its blocks, takes precedence for the BLOGC_SYSINFO_ variables.',
 ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'All uses of the variables in a template, all clock readings, clock jumps during the run, time zones, host and user names, resource usage values, contents of /proc/1/cgroup and short reads of it, and failures of each source.',
 'The unit tests replace each source with one fixed value and call single functions; whether a page is consistent depends on where variables are used and on values that change while the run lasts.',
 ['src/blogc/sysinfo.c', 'src/blogc/rusage.c', 'src/blogc/funcvars.c', 'src/blogc/renderer.c', 'src/common/file.c', 'src/common/utils.c'],
 [('evaluation at first use, cached for the page', 'src/blogc/funcvars.c'), ('variable lookup', 'src/blogc/renderer.c')], ['output page', 'exit status'], note='clock, host, environment, resource usage and /proc are simulated; the host name may be the name or the qualified name that the resolver gives')
HOW['C23'] = 'Scenario `meta` (sim/scn_meta.cpp): the real blogc renders a generated page with every variable once and further uses of them before, after and inside blocks, while the wall clock moves at every reading, in random time zones, with failing gethostname, resolver and getrusage, and generated /proc/1/cgroup read in short pieces, with failing reads and allocations. Oracle: each value against what the simulated system reported during the run; all uses against one value.'

prop('C24', 'Builds of one site at the same time do not harm each other',
 'Any number of blogc-make processes, building everything or single rules, and a watching one, may work in the same site at the same time. If sources and settings are valid and nothing fails, each of them succeeds, and at the moment when one ends with success every output of its rules is there, complete and current. At every instant each output is there with its complete previous or its complete new content, if it was there before. Killing, interrupting or disturbing one of them makes none of the others fail. None removes files of another, and afterwards no temporary files are left; if all outputs were built, the next build writes nothing. If sources were edited meanwhile, or one of the processes cleaned, was killed or failed, one further build makes everything current; a watching process does that by itself.',
 ['schedules', 'crash_points', 'histories', 'fault_sequences', 'configurations'], 'All interleavings of two to four processes and the commands they start, all sets of rules and starting points, all edits meanwhile, all failures of one of them.',
 'No test runs two builds at the same time; whether they meet in the same directory, temporary file or output depends on the schedule.',
 ['src/blogc-make/exec-native.c', 'src/blogc-make/atom.c', 'src/blogc-make/exec.c', 'src/blogc-make/rules.c', 'src/blogc-make/reloader.c', 'src/blogc/main.c'],
 [('temporary name and rename of outputs', 'src/blogc/main.c'), ('copies and directories', 'src/blogc-make/exec-native.c'), ('private atom template', 'src/blogc-make/atom.c')], ['exit status', 'output tree at every change', 'temporary files'], note='the machine does not crash; a process that cleans at the same time may make others fail')
HOW['C24'] = 'Scenario `multi` (sim/scn_multi.cpp): two to four real blogc-make processes with their real blogc children in one generated site, started together or shortly after each other, with random rules, a watching or a cleaning one among them; rounds of edits in between and meanwhile (also at an exact call of a process); kills, interrupts and failing calls in one of them. Slow calls (each mkdir, rename, ... takes a while) make processes meet at the same step. Oracle: at every file-system change each output against its previous content and the reference model; outputs of a process at the moment it exits; exit statuses; leftovers; the next build.'
