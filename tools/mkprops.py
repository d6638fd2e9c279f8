import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
U="pkm/src/pkm/utils/"; A="pkm/src/pkm/api/"; R="pkm/src/pkm/repositories/"
p("H01","Downloaded content is exactly one complete response for the requested URL",
 "Whenever a cached fetch or a plain HTTP request succeeds, the bytes the caller reads are exactly one complete representation that the server published for that URL: never truncated, never a mix of two responses, and never the answer to a different request. This holds across reused keep-alive connections, error responses, redirects, compression, resets, concurrent fetches of the same or other URLs, disk errors and crashes followed by a restart on the same cache directory.",
 ["fault_sequences","schedules","crash_points","inputs"],"all request mixes on a shared client, all interleavings of caller threads, all placements of network, disk and crash faults",
 "No existing test opens the HTTP client at all; the failures need a connection reused after an unread or broken response, or a fault in the middle of a body.",
 [U+"http/http_client.py"],[("connection pool and request loop","HttpClient._request, _Connections"),("response storage","FetchedResource.save")],
 [("pooled connections","idle keep-alive connections per scheme/host/port",U+"http/http_client.py")],["bytes in FetchedResource.data when the fetch returns","bytes read from get()/post()"])
p("H02","Cache directives are honoured by every fetch",
 "A fetch that asks for an update returns a representation the server was publishing at some moment while that fetch, or an overlapping fetch of the same URL it joined, was in progress; a fetch bounded by a date never returns a copy that was last retrieved or confirmed before that date, unless it comes from an overlapping fetch it joined; a fetch that always accepts the cache performs no network request once a complete copy is stored. This holds regardless of earlier fetches of the same URL in the process, deletion of the cached copy, and failed fetches in between.",
 ["histories","schedules","fault_sequences"],"all histories of fetches with different directives, server-side changes, deletions and restarts",
 "Needs a history of several fetches against a server whose content changes; no test exercises the cache.",
 [U+"http/http_client.py",U+"http/cache_directive.py"],[("freshness decision","CacheDirective.is_cache_valid / add_headers"),("single flight table","HttpClient._fetch_inprogress")],
 [("in-flight table","fetches currently in progress",U+"http/http_client.py")],["content version returned vs. versions served during the call","requests seen by the server"])
p("H03","Fetches always settle and faults are never remembered",
 "Every HTTP request or fetch ends, with a result or an error, for every caller that takes part in it, after a bounded number of attempts and redirects, and a connection failure that strikes before the response of one attempt has started does not fail the request. Once faults stop, or after a crash and restart on the same cache directory, fetching an available resource succeeds: no torn cache entry, failed attempt or broken connection keeps failing later fetches.",
 ["fault_sequences","crash_points","schedules"],"all placements of faults and crashes, all numbers of concurrent callers, all interleavings",
 "Liveness and recovery after arbitrary faults cannot be sampled by tests that never inject one.",
 [U+"http/http_client.py",U+"promises.py"],[("retry/redirect loop","HttpClient._request"),("shared promise","HttpClient.fetch_resource"),("cache entry replacement","FetchedResource.save/delete")],
 [("fetch info file","etag, fetch time and hashes stored beside the data",U+"http/http_client.py")],["return/raise of every call","success of a fetch after faults stop"])
p("D01","Only artifacts matching their published digest are installed",
 "A package artifact obtained from a package index is handed to installation only if its bytes match the digest the index published for it; otherwise the operation fails with an error. A corrupted or interrupted download is not kept: once the server delivers the right bytes again, the same installation succeeds.",
 ["fault_sequences","histories"],"all sequences of corrupted, truncated or replaced downloads of an artifact, over repeated attempts and restarts",
 "Needs an index and file server that misbehave; the existing repository tests use fixed in-memory packages.",
 [R+"pypi_repository.py",R+"simple_repository.py",R+"url_repository.py",U+"http/http_client.py"],[("digest check","_retrieve_artifact"),("hash validation","FetchedResource.is_hash_valid")],
 (),["bytes of the path handed to the installer"])
p("I01","A failed installation leaves the target exactly as it was",
 "If installing a package into an environment raises, for example because of a full disk, an I/O error, a bad archive or a hash mismatch at any step, then every file and directory of the environment is exactly as it was before: nothing added, nothing lost, and every overwritten file restored with its previous content. The error is reported to the caller.",
 ["fault_sequences","inputs"],"all wheels (data directories, scripts, entry points, overwritten files), all previous target contents, every single I/O operation failing",
 "Tests never install anything; there are dozens of I/O operations per installation and each can fail.",
 [U+"files.py",A+"distributions/wheel_distribution.py",A+"distributions/distinfo.py"],[("copy transaction","CopyTransaction"),("wheel installer","WheelDistribution.install_extracted_wheel")],
 [("transaction journal","created and overwritten paths of the running installation",U+"files.py")],["file tree of the environment after the call"])
p("I02","A completed installation is complete and truthfully recorded",
 "After a successful installation every file of the package is present, with the content the package shipped (scripts adjusted for the environment's interpreter and executable), every declared script entry point has a launcher, and the installation record lists exactly the files that were added (besides the installer's own bookkeeping markers) with their true hashes and sizes. A package with a file outside its metadata directory whose content differs from the package's own signed file list, or that the list does not cover, is refused. This also holds when several packages (sharing no file) are installed into the same environment at the same time.",
 ["inputs","schedules","fault_sequences"],"all wheels, all interleavings of concurrent installations into one environment, tampered archives",
 "Tests never install anything; concurrent installation needs control over thread interleaving.",
 [A+"distributions/wheel_distribution.py",A+"distributions/distinfo.py","pkm/src/pkm/launchers/executables.py"],[("record signing","RecordsFileConfiguration.sign_files"),("record verification","_verify_records"),("launcher generation","Executables")],
 (),["file tree and RECORD after the call"])
p("I03","Uninstall removes exactly the package's own files, and can be repeated",
 "Uninstalling a package removes every file its installation recorded or added and the directories in the site directory left empty by that, and touches no other file in or outside the environment. If an uninstall, update or installation is interrupted by an error or a crash, repeating it afterwards completes it, and an update that fails with an error leaves the previous version installed: no interruption makes a package impossible to remove, leaves its files orphaned after the repeated uninstall, or removes files of other packages.",
 ["crash_points","fault_sequences","histories"],"all package layouts sharing directories, all crash points and failing operations inside uninstall/update/install",
 "No test uninstalls; the interesting states only exist after an interruption at a particular operation.",
 [A+"packages/site_packages.py",A+"distributions/distinfo.py",U+"files.py"],[("removal order","InstalledPackage.uninstall"),("recorded files","DistInfo.installed_files")],
 (),["file tree after uninstall and after a repeated uninstall"])
p("I04","Executing a plan is equivalent to its operations one by one, and errors surface",
 "Executing an installation plan has the same final result whichever concurrency mode is configured and however its operations interleave: every planned package ends in the planned state with its planned user-request mark. If any operation fails the failure is raised to the caller, no operation is still running when the call returns, and every package is left either as it was or as planned, with the operations that completed intact.",
 ["schedules","fault_sequences","configurations"],"all plans of install/update/remove/skip operations, all interleavings, sequential/threaded/process modes, any operation failing",
 "Concurrency modes, cancellation and error propagation depend on interleavings tests cannot choose.",
 [A+"packages/package_installation.py",U+"promises.py",U+"monitors.py"],[("plan execution","InstallationPlan.execute"),("joint waiting","await_all_promises_or_cancel")],
 (),["installed packages, files and marks after execute returns or raises"])
p("I05","Installed set follows the user's requests over any history",
 "After any sequence of successful install, update and uninstall requests, the environment contains every requested package at a version allowed by its request with all applicable dependencies present at allowed versions; requests for packages not named in an operation stay recorded; and after an uninstall request nothing remains that is neither requested nor needed by something requested. Installing or updating a single package selects the newest version that fits the requests and everything that is already installed, if one does. A request that cannot be satisfied raises and changes nothing.",
 ["histories","inputs","fault_sequences"],"all repositories of packages and all histories of install/update/uninstall operations, including ones whose execution fails part-way and is retried",
 "Depends on histories of operations; the resolver tests cover a handful of single resolutions against toy problems.",
 [A+"packages/package_installation.py",A+"packages/site_packages.py","pkm/src/pkm/resolution/dependency_resolver.py","pkm/src/pkm/resolution/pubgrub.py"],[("planning","PackageInstallationTarget.plan_installation / uninstall"),("operations","InstallationPlan.compute_operations_for_target")],
 [("user request marks","REQUESTED file of each installed package",A+"distributions/distinfo.py")],["installed package set, versions and request marks after each operation"])
p("R01","Resolution is sound and independent of prefetch timing",
 "The outcome of dependency resolution for given packages and requests does not depend on how background prefetching of package lists interleaves with solving or in which order it completes. A returned solution satisfies every applicable dependency, a failure is reported only when prefetching failed or no solution exists, and a failed or slow background lookup ends in an error or a result, never a hang.",
 ["schedules","fault_sequences","inputs"],"all package graphs, all interleavings of the prefetch threads with the solver, failing lookups",
 "The resolver tests run the solver alone on fixed problems, without prefetch threads.",
 ["pkm/src/pkm/resolution/dependency_resolver.py","pkm/src/pkm/resolution/pubgrub.py",U+"dicts.py",U+"promises.py"],[("prefetching","_PkmPackageInstallationProblem._prefetch"),("solver","Solver.solve")],
 (),["resolved package set or raised error per schedule"])
p("X01","Promises settle exactly once and every listener and waiter learns the outcome",
 "A promise reaches exactly one outcome; every waiter and every completion listener, whether registered before, during or after completion, observes that outcome exactly once, and a chained promise carries its listener's value or error. Waiting jointly for several promises returns only when each is settled or cancelled, and raises the first failure in list order.",
 ["schedules","histories","fault_sequences"],"all interleavings of completers, failing or raising listeners, cancellers and waiters over simple, chained and thread-pool promises",
 "The promise code has no tests and its contract is about interleavings.",
 [U+"promises.py"],[("completion and listeners","_SimplePromise"),("future bridging","_FutureWrappingPromise"),("joint wait","await_all_promises_or_cancel")],(),["values seen by waiters and listeners"])
p("X02","Every pool task settles with its own outcome, whatever happens to workers",
 "Every task submitted to the worker-process pool settles exactly once, with the value or error of its own execution and never that of another task, and a task runs at most once. This holds when workers crash, exit, are killed by a cancellation, print output, go idle and time out, or return unpicklable results, and while the pool is being closed; a crashed worker fails at most the task it was running and later tasks still run.",
 ["schedules","fault_sequences","crash_points"],"all interleavings of submitters, worker handlers and workers, all crash points of workers, idle timeouts, cancellations and close",
 "Worker crashes and queue races need control of both the processes and the threads that serve them.",
 [U+"multiproc/__init__.py",U+"promises.py"],[("worker handling","_WorkerHandler._handle_work"),("pool","ProcessPoolExecutor"),("cancellation","_TaskResult")],
 [("unfinished tasks","queued or running tasks",U+"multiproc/__init__.py")],["result of each task's promise","process list"])
p("X03","Lazily computed values are computed once and shared",
 "A lazily computed (cached) attribute read by any number of threads is computed by one of them at a time, exactly once per object until it is cleared, and all readers get that one value. If a computation raises, that reader gets the error and a later read computes again; clearing or replacing the value is seen by reads that start afterwards.",
 ["schedules","fault_sequences"],"all interleavings of readers, clearers and failing computations",
 "Race conditions inside attribute access; not tested.",
 [U+"properties.py"],[("per instance lock","cached_property._compute")],(),["computation count and values returned"])
p("M01","Progress monitoring never changes the outcome of an operation",
 "With any set of progress listeners attached (that do not themselves raise), a monitored operation returns or raises exactly what it would without them, and each start notification is matched by exactly one end notification also when the operation fails or runs asynchronously. Listeners attached temporarily receive nothing about operations started after they are detached, leaving the earlier listeners in place.",
 ["schedules","fault_sequences","histories"],"all nestings of operations and listeners, all interleavings of asynchronous operations, failing operations",
 "Listener nesting combined with failing and asynchronous operations is not tested.",
 [U+"monitors.py"],[("enter/exit notification","MonitoredOperation"),("temporary listeners","_Monitor.listen")],(),["notifications recorded by listeners; value or error of the operation"])
p("C01","Saving configuration is crash-safe",
 "If saving any pkm configuration file (project, project group, repositories, lock, installation metadata) fails or the process dies at any point during the save, the file afterwards holds either its complete previous content or its complete new content, and loading it gives the corresponding configuration. A save that returns successfully is visible in full to every later load.",
 ["crash_points","fault_sequences","inputs"],"all configuration types and contents, every crash point and failing operation of a save",
 "Crash points inside file writes are out of reach of unit tests; a torn project file loses the user's work.",
 ["pkm/src/pkm/config/configclass.py","pkm/src/pkm/config/configfiles.py",A+"projects/pyproject_configuration.py",A+"projects/project_group.py","pkm/src/pkm/resolution/packages_lock.py"],[("save","ConfigFile.save and the ConfigIO writers")],(),["file content after failure/crash and result of load"])
p("C02","The lock file remembers exactly what was locked",
 "The project lock reflects the history of lock and unlock operations: a package locked for an environment is offered first, at its locked version, to resolutions for the same kind of environment until it is unlocked or re-locked, entries of other environments are unaffected, and saving and reloading preserves all of it. An interrupted save leaves the previous or the new lock.",
 ["histories","crash_points","configurations"],"all histories of lock, unlock, save, reload over several environments, with crashes during save",
 "History dependent and crash dependent; the lock has no tests.",
 ["pkm/src/pkm/resolution/packages_lock.py"],[("lock","PackagesLock"),("prioritising","LockPrioritizingRepository")],(),["locked versions after reload; order of matches"])
p("A01","Stored publish credentials survive interruptions and stay protected",
 "After any history of adding, replacing and removing publish credentials, unlocking the store with the right password yields exactly the credentials last stored, a wrong password or damaged store is reported as an error and never yields other data, and the store on disk never contains a credential in clear text. An interruption or error while storing leaves the previous or the new set readable with the same password.",
 ["histories","crash_points","fault_sequences"],"all histories of credential operations with crashes, I/O errors and flipped bytes in the stored file",
 "The store has no tests; losing it to a torn write is a crash-point matter.",
 ["pkm-cli/src/pkm_cli/auth/publish_auth_store.py"],[("encrypted save","PublishAuthenticationStore._save"),("unlock","PublishAuthenticationStore.unlock")],(),["credentials after unlock; bytes on disk"])
p("B01","The source build cache only serves complete, matching builds",
 "Asking for the built artifact or metadata of a source distribution returns a complete build of exactly that source for exactly that kind of environment, whatever earlier or concurrent requests, failed builds, disk errors or crashes happened on the same cache. A failed build is reported and not remembered: once building works again the request succeeds.",
 ["schedules","fault_sequences","crash_points","histories"],"all histories of requests for several sources and environments, concurrent requests, failing builds, I/O errors and crashes",
 "Needs concurrent builders and interruption inside the cache update; untested.",
 ["pkm/src/pkm/build/source_build_cache.py"],[("get or build","SourceBuildCache")],(),["artifact bytes and metadata returned"])
p("S01","Shared package storage never breaks an environment that uses it",
 "When environments share packages, each environment that installed a package finds all its files complete with the right content, however many environments install, uninstall or update it and whenever unused shared packages are cleaned up: only shared content no environment uses is ever removed, and unused content is removed. An interrupted or failed share never becomes visible as an installed or reusable package.",
 ["histories","crash_points","fault_sequences"],"all histories of install/uninstall/clean operations over several environments with crashes and I/O errors",
 "Sharing involves several environments over time; nothing tests it.",
 [R+"shared_pacakges_repo.py",A+"environments/environments_zoo.py"],[("share and link","SharedPackagesRepository"),("garbage collection","remove_unused_packages")],(),["files reachable from each environment; content of the shared directory"])
p("B02","Interrupted or failed builds never leave a broken distribution behind",
 "Building a project's source or wheel distribution either succeeds, giving a complete archive whose file list carries the true hash of every contained file and which installs to the project's own files, or fails; when it fails or the process dies at any point, no file with a distribution's name is left that is not a complete valid distribution.",
 ["crash_points","fault_sequences","inputs"],"all project layouts, all crash points and failing operations inside the build",
 "Tests build nothing with faults; a torn archive in the output folder would be published later.",
 ["pkm/src/pkm/build/pkm_builders.py",A+"projects/project.py"],[("archive creation","build_wheel / build_sdist")],(),["files in the output folder after failure or crash"])
p("G01","A repository checkout that was interrupted is never used as complete",
 "A package obtained from a version-control URL is always built from a complete checkout of the requested revision: if cloning or checking out fails or is interrupted at any point, including by a crash, the operation reports an error and a later attempt obtains a fresh complete checkout instead of using the partial one.",
 ["crash_points","fault_sequences","histories"],"all failure and crash points in clone/checkout, repeated attempts and restarts",
 "Needs an interrupted clone followed by a retry; untested.",
 [R+"git_repository.py"],[("clone","GitRepository")],(),["files of the checkout handed to the package"])
p("E01","Environment creation and discovery tolerate interruption",
 "Creating a virtual environment or an environment zoo, or deleting an environment of a zoo, either completes or reports an error, and after a failure or crash at any point a directory is taken for an environment or zoo only if it is a complete one, isolated from the packages of the base interpreter. Cached interpreter information is rebuilt instead of being trusted or failing when it is damaged or belongs to another interpreter, and broken interpreters never hide the working ones. Activating an environment or zoo for the duration of a block always restores the previous process environment, whatever the block does.",
 ["crash_points","fault_sequences","histories"],"all crash points and failing operations of environment creation and of the information cache write",
 "Crash points and damaged caches are not reachable by the existing tests.",
 [A+"environments/environment_builder.py",A+"environments/environment_introspection.py",A+"environments/environments_zoo.py",A+"environments/environment.py"],[("creation","EnvironmentBuilder.create"),("introspection cache","EnvironmentIntrospection.load_or_compute"),("activation","Environment.activate")],(),["listing/loading of environments after a failure"])
# pure functions: listed, not claimed
p("L01","Packages come only from the repository that the configuration designates",
 "Looking up a package in a global, environment, zoo, project or project group context answers with exactly the applicable versions offered by the repository its configuration designates: the repository a package is bound to (however the name is spelled, whether the binding is inline or names a repository of this or an outer context), otherwise the first repository in the configured order and inheritance that offers a match. If a repository that has to be asked is unreachable, misbehaves or is not defined, the look-up fails instead of answering from another one, and once the repository recovers look-ups succeed again. Concurrent look-ups, earlier look-ups, restarts and configuration changes made through pkm do not change this.",
 ["fault_sequences","histories","schedules","inputs"],"all repository configurations over the contexts, all histories of configuration changes, all placements of failing repositories, network and disk faults, all interleavings of look-ups",
 "No test configures a repository; taking a package from the wrong source needs several repositories, bindings and one that fails at the wrong moment.",
 [A+"repositories/repository_loader.py",A+"repositories/repository_management.py",R+"simple_repository.py",R+"pypi_repository.py",R+"file_system_repository.py"],
 [("repository composition","RepositoryLoader.load/build, _CompositeRepository"),("context chain","RepositoryManagement.package_lookup_chain/attached_repo"),("index look-up","SimpleRepository._do_match, PyPiRepository._do_match")],
 [("repositories configuration","repositories, bindings and inheritance of one context",A+"repositories/repositories_configuration.py")],["versions returned by match()","dependencies of the returned packages","errors raised"])
p("P01","Publishing uploads every distribution complete and truthful, or fails",
 "When publishing a project reports success, the repository has accepted every distribution file of that version, each byte for byte as it is on disk, with the digests, the file type, and the project's name, version, summary, description, requirements and people. Nothing but those distributions is sent, always to the configured upload address with the given credentials, in a form that a strict server can parse, and no request that the server could accept ever carries truncated or other content than the file. If the server refuses, fails or redirects, or the connection or the disk fails for good, publishing reports a failure; a single broken connection is retried with the full content; and after faults stop, publishing again completes what is missing. Projects published concurrently do not affect each other.",
 ["fault_sequences","schedules","inputs"],"all placements of network, server, disk faults and crashes, all interleavings of concurrent uploads, all sizes and contents of distributions",
 "No test publishes anything; a retry that sends an empty file needs a connection that breaks after the body was read.",
 [A+"projects/project.py",R+"pypi_repository.py","pkm/src/pkm/utils/http/mfd_payload.py","pkm/src/pkm/utils/http/http_client.py"],
 [("publication","Project.publish, _PypiPublisher.publish"),("upload encoding","MultipartFormDataPayload.__iter__"),("retries","HttpClient._request")],
 [("uploaded file","file name, content, digests, metadata as the repository stored them","pkm/src/pkm/repositories/pypi_repository.py")],["requests received by the repository","exceptions raised by publish"])
p("J01","Changing a project's dependencies keeps file, environment and lock in step",
 "Adding, updating or removing dependencies of a project (PrjController) either succeeds or fails as a whole. On success the project file declares, in every group, the previous dependencies with exactly the requested ones added, replaced or removed, under any spelling of their names and with their extras, version and markers (one requested without a version gets a range that allows the version that was chosen), and nothing else in the file changes its meaning; the project is installed and requested in its environment and importable from its sources; every declared dependency that applies to the environment (those of the requested group too), and everything they need, is installed in an allowed version; an update brings an installed package to the newest version that nothing else prevents; after a removal nothing that is no longer needed remains; the lock lists exactly what the environment contains, and entries of other environments stay. A request that cannot be satisfied is refused, and changes neither the project file, the environment, the lock nor the loaded declarations; one that can be satisfied is not refused. Wherever an operation is interrupted, by a disk error or the death of the process, the project file declares exactly the old or exactly the new dependencies, and repeating the operation completes it.",
 ["histories","fault_sequences","crash_points","inputs"],"all histories of additions, updates, removals and newly published versions, all package universes, every I/O operation failing or being the last one of the process",
 "No test changes a project; the files, the environment and the lock get out of step only after several operations, refusals or interruptions.",
 ["pkm-cli/src/pkm_cli/controllers/prj_controller.py",A+"projects/project.py",A+"projects/pyproject_configuration.py",A+"packages/package_installation.py","pkm/src/pkm/resolution/packages_lock.py"],
 [("dependency changes","PrjController.install_dependencies/uninstall_dependencies"),("project installation","Project.install_project"),("lock update","PackagesLock.update_lock")],
 [("declared dependencies","pyproject.toml of the project",A+"projects/pyproject_configuration.py"),("lock","etc/pkm/packages-lock.toml of the project","pkm/src/pkm/resolution/packages_lock.py")],["pyproject.toml","packages-lock.toml","installed packages and their files"])
p("J02","A project group is what its file says, and changes of it are exact",
 "Adding a project or group to a project group, and removing one by its name or path, changes exactly that entry in the group's file and nothing else in it (adding one that is already there changes nothing), or fails and changes nothing, in memory either; wherever it is interrupted, by a disk error or the death of the process, the file lists exactly the old or the new children. What is observed of a group always follows its file, however the paths in it are spelled and also right after a change: its name, its children in order, all projects below it (each once), its parent and the root of its ancestors. A project or group finds exactly the group that lists it, through whatever path it was opened, or the one it names itself; one that no group lists has none. A project without an environment configuration of its own uses its group's; when it looks for a project of its group it gets that project, for exactly the requirements that fit its version. Building all builds every distribution of every project below the group.",
 ["histories","fault_sequences","crash_points","inputs"],"all trees of groups and projects, all spellings of paths and names, all histories of changes, every I/O operation failing or being the last one of the process",
 "No test uses project groups; the failures need nesting, unusual spellings of paths, a change followed by a question to the same object, or an interruption.",
 [A+"projects/project_group.py",A+"projects/project.py",A+"repositories/repository_management.py"],
 [("group changes","ProjectGroup.add/remove"),("membership","ProjectGroup.of/_find_group"),("sibling look-up","ProjectRepositoryManagement, ProjectsRepository"),("attached environment","Project.attached_environment")],
 [("group file","pyproject-group.toml",A+"projects/project_group.py")],["pyproject-group.toml","children, parents and roots","answers of the project's repository"])
p("V01","Version ordering and specifiers form a consistent algebra",
 "Versions are totally ordered as their standard prescribes, and version specifiers behave as sets of versions: membership commutes with intersection, union and negation, and printing then parsing gives an equivalent specifier.",
 ["inputs"],"all versions and specifiers","The tests check examples of an infinite input space.",
 [A+"versions/version.py",A+"versions/version_specifiers.py",A+"versions/version_parser.py"],[("algebra","VersionSpecifier")])
p("V02","Configuration text round trips",
 "Parsing configuration text and writing it back without changes gives an equivalent document that keeps the author's layout, and any representable value written can be read back equal.",
 ["inputs"],"all documents and values","Pure function over an infinite input space.",
 ["pkm/src/pkm/config/toml.py"],[("parser and writer","toml.loads/dumps")])
p("V03","Dependency and marker expressions mean what their standard says",
 "Parsing a dependency specification and evaluating its environment marker gives the result the packaging standard prescribes for the given environment, and printing it gives an equivalent specification.",
 ["inputs"],"all dependency strings and environments","Pure function over an infinite input space.",
 [A+"dependencies/dependency.py",A+"dependencies/env_markers.py"],[("parser","PEP508DependencyParser, PEP508EnvMarkerParser")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
