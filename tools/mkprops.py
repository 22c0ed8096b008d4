import json
def P(id,title,statement,over,text,why,files,mech,state,observe,hook):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=hook))
PL="src/parallel/parallel_openmp.cpp"
L=[]
L.append(P("P01","A parallel loop runs every iteration exactly once on a valid worker",
"A parallel loop over N samples that returns normally, whichever thread issued it, has invoked the caller's function exactly once for every index 0..N-1 and for no other index, and every invocation has finished before the loop returns. Each invocation is given a worker id in 0..num_threads-1, no two invocations that overlap in time share an id, and main_thread() is true inside exactly the invocations whose worker id is 0. The configured worker count is the requested number, or hardware threads plus the number when it is zero or negative, and never less than one.",
["schedules","configurations","histories"],
"All interleavings of the worker threads, all sample counts (including 0 and counts below the worker count), all requested worker counts and progress intervals, repeated and consecutive loops.",
"A unit test observes one or two OS schedules on one machine with one thread count; a duplicated, skipped or late iteration that needs a preemption at a particular instruction is not sampled.",
[PL,"src/parallel/parallel.cpp","include/lm/parallel.h"],
[("parallel loop","parallel::foreach / ParallelContext_OpenMP::foreach"),("worker count configuration","ParallelContext_OpenMP::construct")],
[("num_threads_","configured number of workers",PL)],
["callback arguments and invocation/return order as seen by the caller's function","parallel::num_threads(), parallel::main_thread()"],None))
L.append(P("P02","A failure inside a parallel loop reaches the caller and nothing is left behind",
"If any invocation of the loop body or of the progress callback throws, the loop ends by throwing one of the exceptions that were actually thrown, with its type and message intact, and it never returns normally or terminates the process. No invocation is still running when the exception reaches the caller, no index is run twice, and after the failure has been recorded each other worker completes at most the iteration it was already executing. Later loops, progress reports and renders behave as if the failed loop had not happened.",
["schedules","fault_sequences","histories"],
"All interleavings, all choices of throwing iterations/workers (one, several at once, all, in the body or in the progress callback, allocation failures included), all loops that follow.",
"Tests throw from one fixed place on an uncontrolled schedule; simultaneous failures on several workers and failures racing with loop completion are never sampled.",
[PL,"src/scheduler.cpp","include/lm/parallel.h"],
[("exception capture and cancellation","ParallelContext_OpenMP::foreach"),],
[("done/exp","cancellation flag and captured exception",PL)],
["exception type and text at the call site","bodies running or started after the failure","results of subsequent loops"],None))
L.append(P("P03","Progress reports are bounded, monotone and properly bracketed",
"Within one reporting session every reported sample count lies between 0 and the announced total, never exceeds the number of iterations completed so far in that session, and never decreases; reported elapsed times never decrease. The count is reported after every iteration that worker 0 completes and lags behind the completed iterations by no more than one update interval per worker. A scheduler run is one session that announces its number of samples or its time limit. Every start of reporting is matched by exactly one end, also when the work fails, updates arrive only between the two and never from two threads at once. A multiplexing reporter forwards every event, in order, to each of its children; a delaying reporter forwards start and end unconditionally and only updates that come more than the delay after the last forwarded one; the console reporter shows, with the right count and total, the updates that come more than half a second after the last shown one.",
["schedules","histories","fault_sequences","configurations"],
"All interleavings, sample totals, update intervals, sequences of loops in one process, failing bodies, clock jumps and stalls, nestings of reporters.",
"Stale per-thread counters and out-of-order counter publication show only after particular sequences of loops or preemptions, not in a single short run.",
[PL,"src/progress.cpp","src/scheduler.cpp","include/lm/progress.h"],
[("progress counting","ParallelContext_OpenMP::foreach"),("session bracket","progress::ScopedReport / ScopedTimeReport"),("mux and delay reporters","ProgressContext_Mux, ProgressContext_Delay")],
[("processed","published number of processed samples",PL),("last_updated_","time of the last forwarded update","src/progress.cpp")],
["calls received by an installed progress reporter"],None))
L.append(P("P04","Schedulers process exactly the samples they report",
"A scheduler run that returns normally has processed complete passes only: a per-pixel scheduler runs every (pixel, sample) pair with pixel < number of film pixels and sample < S exactly once and reports S, a per-image scheduler runs every sample index 0..N-1 exactly once and reports N. In sample-limited mode S or N is the configured number; in time-limited mode it is the number of passes, or passes times the samples per pass. A renderer's reported number of processed samples and its film normalisation agree with that number.",
["schedules","configurations","histories"],
"All interleavings, film sizes, worker counts, sample counts, time limits and pass lengths, with clock stalls.",
"Tests run one tiny configuration; index arithmetic and pass accounting errors need particular sizes, late passes, or preempted workers.",
["src/scheduler.cpp",PL,"src/renderer/renderer_pt.cpp","src/renderer/renderer_lt.cpp"],
[("spp/spi schedulers","Scheduler::run in src/scheduler.cpp")],
[("spp/processed","samples finished so far","src/scheduler.cpp")],
["arguments of the process callback","return value of run()","film contents and the render result"],None))
L.append(P("P05","Time-limited runs stop at the first pass boundary after the limit",
"A time-limited scheduler run starts a new pass if and only if the time elapsed since the run began, measured when the previous pass ended, does not exceed the limit (to millisecond resolution), so it neither stops before its budget is used nor keeps going after it. Adjusting the wall clock forwards or backwards during the run does not change when it stops or the elapsed times it reports.",
["schedules","fault_sequences","configurations"],
"All pass durations, limits (including 0), stalls of any worker at any point, forward and backward wall-clock steps at any point.",
"Tests cannot move the clock, stall a thread at a chosen point, or wait for long limits.",
["src/scheduler.cpp","include/lm/timer.h"],
[("time check","Scheduler_SPP_Time::run, Scheduler_SPI_Time::run"),("elapsed timer","timer::ScopedTimer")],
[("start","beginning of the run","src/scheduler.cpp")],
["number of passes run against the simulated clock","elapsed values passed to progress and returned by renderers"],None))
L.append(P("P06","Concurrent film updates are never lost, torn or misplaced",
"Set, splat, average and user-defined atomic updates issued concurrently from any threads take effect on exactly the addressed pixel as if executed one at a time in some order consistent with real time, so the sum of splatted values is conserved and every value read is one some order produces. Reads through the film buffer and saves see whole pixels only. Rescaling, clearing and accumulating another film apply exactly once to every pixel and to nothing else.",
["schedules","histories","inputs"],
"All interleavings of the atomic pixel accesses including spuriously failing compare-exchange, all operation mixes and film sizes, any number of threads.",
"A lost update needs a preemption between a load and a store of one pixel; existing tests are single-threaded.",
["src/film/film_bitmap.cpp","include/lm/film.h"],
[("atomic pixel update","AtomicWrapper::update/add/update_with_func"),("rescale/clear/accum/buffer","Film_Bitmap")],
[("data_","pixel values","src/film/film_bitmap.cpp")],
["values returned by buffer() and written by save()"],None))
L.append(P("P07","A film save that reports success left the complete image on disk",
"If saving a film reports success, the file exists at the requested path, decodes as the format named by its extension and holds every pixel of the film (exactly for pfm, to format precision otherwise). Any failure to create, write, flush or close the file or to create its directory is reported to the caller as a false result or an exception, the film itself is unchanged, and a later save to healthy storage succeeds.",
["fault_sequences","crash_points","inputs"],
"All film sizes and contents, formats, destinations, and all sequences of open/write/close failures, full disks at every byte offset, short writes and interrupted calls.",
"Tests write to a healthy disk; a full disk during the last buffered write cannot be produced portably.",
["src/film/film_bitmap.cpp","include/lm/film.h"],
[("save","Film_Bitmap::save, image::writePfm")],
[("output file","bytes on disk","src/film/film_bitmap.cpp")],
["return value of save()","bytes of the file after the call"],None))
L.append(P("P08","A saved state restores an equivalent scene in a new process",
"If saving the whole state or a single asset reports success, a later process that loads the file obtains the same asset hierarchy: the same names, locators and component types, every internal reference pointing to the corresponding asset, and every built-in component behaving like the original (same pixels, ray hits, lights, materials, media and render results). This holds when the saving process is killed at any moment after the save returned, and whatever assets existed in the loading process before.",
["histories","crash_points","configurations","fault_sequences"],
"All asset hierarchies built from the built-in components, all edit histories before the save, kill points after the save, short and interrupted writes and reads.",
"A field missing from one component's saved form, or data still buffered when the process dies, shows only for the component, value and moment affected.",
["src/user.cpp","src/assetgroup.cpp","include/lm/serial.h","include/lm/serialtype.h","src/scene.cpp","src/renderer","src/material","src/light","src/volume","src/medium","src/texture","src/mesh","src/camera","src/film"],
[("state save/load","save_state_to_file / load_state_from_file"),("asset save/load","serial::save_comp / AssetGroup::load_serialized"),("component serialisation","load/save of each component")],
[("root_assets_","all assets","src/user.cpp")],
["the loaded hierarchy through locators and component interfaces"],None))
L.append(P("P09","Failed saves and loads are reported and leave the live state untouched",
"A save that could not put the complete state on disk, and a load of a file that is missing, unreadable, truncated at any byte, or mentions a component that is not available, ends with an exception at the caller. After a failed save or load the assets that existed before are all still registered under their names, usable and correctly referenced, no partial asset is visible, and the same operation succeeds once the cause is gone.",
["fault_sequences","crash_points","histories"],
"All hierarchies, all truncation offsets and kill points during the save, open/read/write/flush/close errors, full disks, missing plugins.",
"Needs storage errors at chosen bytes and process kills at chosen writes.",
["src/user.cpp","src/assetgroup.cpp","include/lm/serial.h"],
[("state save/load","UserContext::save_state_to_file / load_state_from_file"),("asset load","AssetGroup_::load_serialized"),("component load","cereal::load(Ptr)")],
[("root_assets_","all assets","src/user.cpp"),("asset_index_map_","name registration","src/assetgroup.cpp")],
["exceptions at the caller","the hierarchy after the failure"],None))
L.append(P("P10","Replacing assets keeps every reference valid, and failed loads change nothing",
"After any sequence of asset loads, replacements and scene edits, every name resolves to the most recently loaded asset of that name, and every other asset, scene node or renderer that refers to a name uses that asset and never a destroyed one. A load or scene edit that fails (unknown component, invalid name, references to something unknown or of another kind, rejected parameters, failure inside construction) is reported and leaves the names, assets and references exactly as they were before, and each asset is destroyed exactly once. Values an asset derives from another one when it is itself loaded (an area light's sampling table, a composite volume's bound, which node of a scene is its environment light) are not required to follow a later replacement.",
["histories","fault_sequences"],
"All sequences of load/replace/scene edits over all referencing component types, with construction failing at any point.",
"A stale reference is a use-after-free that a short test survives by luck; failures inside construction are not injected by tests.",
["src/assetgroup.cpp","include/lm/component.h","src/component.cpp","src/scene.cpp"],
[("load and replace","AssetGroup_::load_asset"),("reference update","comp::update_weak_ref, foreach_underlying of each component")],
[("assets_/asset_index_map_","registered assets","src/assetgroup.cpp")],
["component identities reached through references, construction/destruction counts"],None))
L.append(P("P11","Scene acceleration answers like exhaustive search under every build schedule",
"Building the acceleration structure always terminates, and afterwards every ray query returns a hit exactly when some triangle of the scene is hit within the given range, at the distance of the nearest one, with that triangle's primitive, face and transform; rays for which a triangle's hit lies within rounding error of its edge or of the range are exempt. The answers do not depend on how the build threads are interleaved, on how many there are, on spurious wake-ups, or on some threads failing to start, and remain right when the structure is rebuilt after the scene changed. After a build the scene also reports exactly its own nodes, the lights reachable from its root (once per occurrence, with their transforms) and its current camera, medium and environment nodes, and gives the surface point, normals and light of the triangle that was hit; edits naming nodes or models that do not exist change nothing. Building a scene without an acceleration structure is reported.",
["schedules","fault_sequences","inputs","histories"],
"All interleavings of the build workers, thread counts (including unknown), thread-creation failures, all triangle sets including empty, degenerate and coincident ones, repeated builds with growing and shrinking scenes.",
"The parallel build races through a shared queue; lost wake-ups and premature termination need particular interleavings.",
["src/accel/accel_sahbvh.cpp","src/scene.cpp"],
[("parallel build","Accel_SAHBVH::build"),("traversal","Accel_SAHBVH::intersect")],
[("nodes_/indices_","tree and triangle order","src/accel/accel_sahbvh.cpp")],
["Accel::intersect / Scene::intersect results against brute force","termination within a step budget"],None))
L.append(P("P12","Log messages are written whole, once and in order from any thread",
"Every message whose severity passes the current threshold is written exactly once by the time the call returns, all lines of one message are contiguous and carry the right level tag, source position and the indentation in force, and messages of one thread keep their order; messages below the threshold leave no trace. A progress message replaces the previous one on its row completely, and the end of a progress report finishes the row. Indentation changes balance out so that the depth returns to its previous value after any sequence of scopes, including scopes left by an exception. Logging and threshold changes may run concurrently from any threads.",
["schedules","histories","configurations"],
"All interleavings of logging threads, all message shapes (empty, multi-line, progress), indentation and severity histories.",
"Interleaved fragments need preemption between two stream writes.",
["src/logger.cpp","include/lm/logger.h"],
[("default logger","LoggerContext_Default::log / update_indentation / set_severity")],
[("indentation_","current depth","src/logger.cpp"),("severity_","threshold","src/logger.cpp")],
["bytes written to standard output"],None))
L.append(P("P13","Input files are loaded completely or the load is reported as failed",
"Loading a mesh, model or texture from a file either yields exactly the contents of the file (polygons triangulated, each material with the texture it names) or fails with an error at the caller; a file that cannot be opened, or whose reading fails part-way, never yields an asset. Short and interrupted reads do not change the result. After a failed load the name is not registered with a partial asset and the same load succeeds once the file is readable. This holds for the built-in OBJ loader and for the alternative one of the tinyobjloader plugin.",
["fault_sequences","inputs"],
"All generated OBJ/MTL/image files, open failures and read errors at any byte of any of the files involved, short and interrupted reads.",
"Read errors in the middle of a file cannot be produced in a unit test.",
["src/objloader/objloader_simple.cpp","plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp","src/mesh/mesh_wavefrontobj.cpp","src/model/model_wavefrontobj.cpp","src/texture/texture_bitmap.cpp"],
[("OBJ/MTL parser","objloader_simple.cpp"),("texture load","Texture_Bitmap::construct")],
[("geometry/material tables","parsed contents","src/objloader/objloader_simple.cpp")],
["asset contents through mesh/texture interfaces, exceptions"],None))
L.append(P("P14","The component registry follows every plugin and registration history",
"After any sequence of plugin loads, unloads, directory loads, registrations and unregistrations, including failing ones, exactly the components of built-in code, loaded plugins and live registrations can be created and are enumerated, by key and by alias. A plugin that fails to load is reported, is not considered loaded, can be loaded later, and does not prevent the other plugins of a directory from loading; loading twice loads once, and unloading something not loaded is reported. Creating an unknown key yields nothing rather than a wrong component.",
["histories","fault_sequences"],
"All operation sequences over several plugins, with the dynamic loader failing at any load or unload.",
"The dynamic loader does not fail on demand in tests, and histories longer than load-use-unload are not tried.",
["src/component.cpp","include/lm/component.h"],
[("plugin management","ComponentContext::load_plugin/unload_plugin/load_plugin_directory/unload_all_plugins"),("registry","reg/unreg/create_comp")],
[("plugins_","loaded plugins","src/component.cpp"),("func_map_","registered factories","src/component.cpp")],
["comp::create results, foreach_registered, exceptions"],None))
L.append(P("P15","A parallel render equals the serial execution of its samples",
"The film produced by any renderer equals, up to the rounding of sums, the film obtained by running the same samples one after another with each worker's own random stream; images that involve no randomness are identical for every schedule and worker count. Rendering reads the scene without modifying it, so rendering again or rendering with another renderer gives the same kind of result, and for a renderer given a seed and run on one worker the image is the same every time.",
["schedules","configurations","histories"],
"All interleavings, worker counts, renderers, scenes over the built-in components, and sequences of renders in one process.",
"Image tests compare one machine schedule within noise tolerances that hide lost or misattributed samples.",
["src/renderer","src/film/film_bitmap.cpp",PL,"src/scheduler.cpp","src/scene.cpp","include/lm/path.h","include/lm/math.h"],
[("renderers","render() of each renderer"),("per-worker random numbers","Rng in the renderers")],
[("film pixels","accumulated radiance","src/film/film_bitmap.cpp")],
["film buffer after render under controlled schedules"],None))
L.append(P("P16","Rendering and logging are free of data races",
"While a parallel loop, an acceleration-structure build, concurrent film updates, concurrent scene and component queries or concurrent logging are in progress, no two threads access the same memory location without an ordering between them if one of the accesses is a write and either is not atomic.",
["schedules","configurations"],
"All interleavings of all renderers, builds, film, scene and logger operations documented as usable from parallel code.",
"A race is invisible to result-based tests on most runs and architectures.",
["src/renderer","src/accel/accel_sahbvh.cpp","src/film/film_bitmap.cpp","src/logger.cpp",PL],
[("instrumented memory accesses","all library code compiled with access instrumentation")],
[],["happens-before tracking of every instrumented access in the simulator"],None))
L.append(P("P17","Subsystem lifecycle: use outside init/shutdown fails cleanly, restarts work",
"Every public operation that needs an uninitialised subsystem reports an error instead of crashing, logging falls back to plain output, and after any sequence of initialisations, re-initialisations, failed initialisations (unknown type or bad parameters) and shutdowns the library works again once initialised. Re-initialising replaces the previous subsystem, whose resources are released exactly once; when the re-initialisation fails the subsystem is uninitialised.",
["histories","fault_sequences"],
"All sequences of init/shutdown/reset of the library and each subsystem, valid and failing, interleaved with uses.",
"Tests always follow the one documented order.",
["src/user.cpp","include/lm/component.h","src/logger.cpp","src/progress.cpp","src/parallel/parallel.cpp","src/objloader/objloader.cpp"],
[("context instances","comp::detail::ContextInstance"),("library context","UserContext::init/shutdown/reset")],
[("initialized_","library state","src/user.cpp")],
["exceptions and results of public calls, construction/destruction counts"],None))
# not applicable
NA=[]
def N(id,title,st,files,why):
    NA.append(P(id,title,st,["inputs"],"All inputs.",why,files,[],[],["function results"],None))
N("N01","Sampling routines match their probability densities","Every material, light, phase function and camera samples directions with exactly the density its pdf query reports, and the returned weight equals the evaluated contribution divided by that density.",["src/material","src/light","src/phase","src/camera"],"A statistical statement over continuous inputs.")
N("N02","Rendering algorithms agree in expectation","All path tracing, light tracing and bidirectional renderers converge to the same image for the same scene.",["src/renderer"],"Holds in the limit of many samples over all scenes; tests use one scene and a tolerance.")
N("N03","Parameter conversion is lossless and strict","Vectors, matrices, optionals and component references survive conversion to and from the property format, and wrong types or missing required values are rejected with an error.",["include/lm/json.h"],"All shapes of input values.")
N("N04","Math utilities satisfy their identities","Orthonormal bases are orthonormal, transforms invert, bounds merge to the enclosing box and discrete distributions sum to one.",["include/lm/math.h"],"All floating point inputs.")
N("N05","Python bindings expose the same behaviour as the native interface","Every bound call from Python has the effect and result of the native call, including component classes written in Python and used from render threads.",["src/pylm.cpp","include/lm/pylm.h"],"All Python programs and interpreter thread schedules.")
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in L+NA: f.write(json.dumps(p)+"\n")
for p in L+NA: assert len(p['title'])<=80,(p['id'],len(p['title']))
