import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=', '.join(files)) for m in mech.split(';')]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b) for a,b in state]
    P.append(d)

p("C01","Modelled images never depend on thread count or scheduling",
"For given inputs, adding CTI to an image, removing it, or clocking it in a single direction returns the bit-identical image whatever the number of worker threads, whatever order columns are handed to them, and wherever they are interleaved. This includes read-out modes in which the traps keep their contents from one column to the next: those contents must follow column order, never thread order.",
["schedules","configurations","inputs"],
"every team size, every assignment of columns to workers, every interleaving of their memory accesses, and all clocking modes, trap species, windows and express settings",
"The tests run on whatever thread schedule the machine happens to give, mostly with one or few columns and with traps emptied between columns, and never compare team sizes.",
["src/cti.cpp","src/trap_managers.cpp","include/roe.hpp"],
"the OpenMP loop over columns and its private/firstprivate lists; the per-thread copy of the trap managers; the end-of-column reset and store",
[("trap_manager_manager","the trap contents a worker carries through its columns"),("image","the shared output image, one column per iteration")])

p("C02","Worker and caller threads share no unsynchronised mutable state",
"While an image is modelled, no two threads ever touch the same memory without synchronisation if one of them writes it. An application may therefore run several modelling calls at once from its own threads, each with its own detector, read-out and trap objects, and every call returns exactly what it returns when it runs alone.",
["schedules"],
"every interleaving of the worker threads of one call, and of several concurrent calls made by different application threads",
"A data race only shows under particular interleavings; the tests neither control the schedule nor make concurrent calls.",
["src/cti.cpp","src/trap_managers.cpp","src/traps.cpp","src/roe.cpp","src/read_noise.cpp","src/util.cpp"],
"data-sharing clauses of the parallel loops, file-level and function-level statics, const access to the read-out and detector objects from inside the loops")

p("C03","Electrons are conserved between the charge cloud and the traps",
"In every capture and release event, for every trap type and every earlier history, the electrons added to the cloud equal the electrons lost by the traps, and dissolving negligible levels (pruning) changes none of the electrons held by traps that are spread evenly through the volume. Consequently a full pixel-by-pixel read-out, with traps that are empty at the start of each pass, never outputs more charge than it was given, and what it loses is no more than its traps can hold.",
["histories","inputs","configurations"],
"every sequence of clouds of any size with traps saved, restored, emptied and pruned in between, all four trap types, mixed species, and whole images clocked in every mode",
"The tests compare a handful of hand-computed watermark tables; conservation after long mixed histories, notch depths, tiny clouds or pruning is never sampled.",
["src/trap_managers.cpp","src/cti.cpp"],
"watermark updates in the release/capture functions of each trap manager, partial capture when there is not enough charge, and the write-back of the net charge to pixels",
[("watermark_volumes","how much of the pixel volume each level covers"),("watermark_fills","electrons per unit volume held at each level by each species")])

p("C04","Traps and pixels only ever hold physically possible charge",
"After any history, each trap species holds between zero and its density everywhere in the pixel, the tracked volume never exceeds the pixel, a cloud never loses more electrons than it has, and no value becomes NaN or infinite. The tracking never reads or writes outside its own storage, for every supported read-out mode and number of transfers.",
["histories","inputs","configurations"],
"every sequence of clouds and state operations up to the declared number of transfers, all trap types, and whole-image calls in all clocking modes",
"Tests use short hand-picked sequences that stay well inside the storage and away from exhausted, saturated or tiny clouds; they run without any memory checking.",
["src/trap_managers.cpp","src/cti.cpp","src/roe.cpp"],
"sizing of the watermark arrays from the number of transfers, in-place shifting of levels, clamping of fills, pixel indexing of neighbouring pixels in multi-phase clocking")

p("C05","Saved trap contents come back exactly; emptied traps are as new",
"Restoring a saved trap state gives back exactly the trap contents at the moment of saving, whatever happened in between, and leaves the saved copy usable again; emptying the traps makes them indistinguishable from newly created ones. A copy of a set of traps evolves independently of its original.",
["histories"],
"every interleaving of charge events with save, restore, empty, prune and copy operations, repeated any number of times",
"Tests save and restore once, right away; they never check that later behaviour is identical or that two copies do not affect each other.",
["src/trap_managers.cpp","src/cti.cpp"],
"store/restore/reset of each manager type and the fan-out over trap types and phases; copies made for worker threads")

p("C06","Trap response follows the physical model for every exposure history",
"For any sequence of charge clouds, the net charge each trap type releases and the amount it still holds agree with a direct simulation of a pixel volume in which every height is filled below the cloud (at once or at the capture rate) and empties at the release rate or its distribution, sharing out what is there when charge is short. Bookkeeping such as merging, splitting and reusing levels must be invisible.",
["histories","inputs"],
"every history of cloud sizes (rising, falling, repeated, zero, saturating, tiny), every trap type and mixture, notch depth, fill power and volume-dependent trap density",
"Unit tests check a few short histories against stored numbers; the number of distinct rising and falling cloud sequences is unbounded.",
["src/trap_managers.cpp","src/traps.cpp","src/ccd.cpp"],
"watermark bookkeeping of the four trap managers; release and capture probabilities; fill-fraction/elapsed-time tables of continuum traps; cloud volume")

p("C07","Discarding negligible trap levels changes nothing noticeable",
"Pruning trap levels below a threshold never changes the total number of trapped electrons, never leaves stale contents behind, and however often and wherever it is done, later releases and captures differ from those of never-pruned traps by no more than a small multiple of a positive threshold. A final image with pruning therefore agrees with one without it to that accuracy.",
["histories","configurations"],
"every history of charge events with pruning injected at arbitrary points and thresholds, and whole images for every pruning interval",
"Tests prune one hand-made state and look at the result straight afterwards; the damage from bad pruning appears only events later.",
["src/trap_managers.cpp","src/cti.cpp"],
"dissolving a level into its neighbours, shifting the remaining ones down, and the entries vacated beyond the active range; the pruning interval in the row loop")

p("C08","Added CTI equals a pixel-by-pixel reference read-out in every mode",
"The image with CTI added equals what an independent, sequential simulation of the read-out gives: every charge cloud makes the right number of transfers for its distance, prescan and overscan, first in the parallel then in the serial direction, with the stated express, first-transfer, multi-phase, charge-injection and trap-pumping rules. In any express setting each pixel is charged for exactly its true number of transfers.",
["configurations","inputs","histories"],
"every combination of image shape, express value, offsets, overscan, phases, clock type, trap mixture and pixel values, under arbitrary worker schedules",
"The tests cover a few configurations with stored expected images; the combinations of modes are never crossed and the order-dependent carry of trap contents between passes is not checked independently.",
["src/cti.cpp","src/roe.cpp","src/util.cpp","src/trap_managers.cpp"],
"express and store matrices, clock sequences, the pass/row/step/phase loop, parallel and serial passes with transposition")

p("C09","CTI removal inverts CTI addition by the documented iteration",
"Removing CTI performs the requested number of iterations, each adding the difference between the observed image and the re-trailed estimate (and clipping at zero only when negative pixels are not allowed); zero iterations return the input. Where the model is contracting, a few iterations on a trailed image bring it ever closer to the original.",
["inputs","configurations","schedules"],
"every image, trap model, direction combination and iteration count, under arbitrary worker schedules",
"Tests remove CTI from one or two images and compare with a loose tolerance; the iteration count, clipping and independent settings per direction are not crossed.",
["src/cti.cpp"],
"the correction loop and the forwarding of all parameters of both directions to the forward model")

p("C10","A window restricts the work, never the answer",
"With a window, only the selected pixels (and, in multi-phase clocking, the neighbours charge is released into) may change; every other pixel is returned exactly as given. Columns inside a window get exactly the values they get in a full-image run, a window that covers the whole image changes nothing, and row windows agree with the full run for pixels whose upstream neighbours are all inside the window.",
["configurations","inputs","schedules"],
"every row and column window in either clocking direction, every image and express setting, under arbitrary worker schedules",
"Only a few windows are sampled by the tests, with one direction at a time.",
["src/cti.cpp"],
"row/column start and stop handling, and the exchange of parallel and serial windows after transposition")

p("C11","Calls leave no trace: inputs intact, results independent of history",
"Calling any modelling function leaves the input image and the descriptions of detector and traps unchanged and gives the same result no matter which calls, with which objects and which sizes, were made before in the process. Reusing, copying or assigning read-out, detector and trap objects never makes one of them affect another.",
["histories","programs"],
"every sequence of modelling calls sharing, copying and reassigning objects in any order",
"Tests build fresh objects for each case; leftovers between calls and aliasing between copied objects need multi-call histories.",
["src/cti.cpp","src/roe.cpp","include/roe.hpp","src/traps.cpp","src/interface.cpp"],
"matrices cached in read-out objects, interpolation tables in traps, assignment of read-out objects, default arguments with static storage, global verbosity")

p("C12","Image text files are complete and faithful, or the failure is reported",
"Saving an image and loading it back gives the same shape and the same values to the printed precision. If the disk fills, a write or close fails, or the file to be read is missing, truncated or malformed, the operation reports the failure instead of silently leaving or returning partial data (a file that lacks values, has damaged numbers or an impossible size is malformed); interrupted or short but retryable I/O changes nothing.",
["fault_sequences","crash_points","inputs"],
"every image shape and value, every sequence of short, failing, interrupted writes and reads and every point at which the disk fills or the process dies",
"Tests save and load one small image on a healthy disk.",
["src/util.cpp","src/main.cpp"],
"stream error checks while writing and closing, header parsing, element count checks while reading")

p("C13","Diagnostics never change the answer",
"Printing at any verbosity, a full or broken standard output, and clocks that jump, stall or run backwards never change a returned image nor make a call fail. The reported elapsed time is the end time minus the start time, for every pair of clock readings including those that straddle a second boundary.",
["fault_sequences","configurations","schedules"],
"every verbosity level, model, clock behaviour and output failure, under arbitrary worker schedules",
"Tests run quietly on a healthy console and a steady clock, and test the elapsed time for one pair of readings.",
["src/cti.cpp","src/util.cpp","src/trap_managers.cpp","include/util.hpp","src/interface.cpp"],
"verbosity-guarded prints inside the transfer loops (including ones that index trap lists that may be empty) and the wall-clock measurement")

p("C14","Running out of memory never yields a wrong image",
"If any memory allocation during a modelling call fails, the call ends with an exception or a clean termination; it never returns a wrong image, overwrites its inputs or touches memory it does not own. After an exception the same call made again returns the correct image. (The standard library's own containers are taken to keep their contents when growing them fails.)",
["fault_sequences","crash_points"],
"every allocation made during a call failing, singly or repeatedly, in every mode",
"No test fails an allocation.",
["src/cti.cpp","src/trap_managers.cpp","src/traps.cpp","src/read_noise.cpp","src/interface.cpp"],
"container growth throughout, the unchecked scratch buffer of the read-noise model, integration workspaces, set-up code that modifies caller-visible objects before it can fail")

p("C15","The read-noise estimate matches its sequential definition on any schedule",
"The read-noise model of an image, computed in parallel, is bit-identical on every schedule and equals the documented per-pixel formula from the 3x3 neighbourhood averages (with edges and corners averaged over the neighbours that exist) of every pixel. It reads and writes only the supplied arrays.",
["schedules","inputs"],
"every image shape from one pixel up, every noise level, both smoothing modes, all interleavings of the worker threads",
"No test exercises this routine on more than a default schedule, nor edge shapes.",
["src/read_noise.cpp","src/interface.cpp","python/arcticpy/read_noise.py"],
"three parallel loops over interior, edges and pixels; an output buffer reused as scratch space")

p("C16","The Python interface gives the core's answer for every input",
"Adding or removing CTI through the Python package returns what the core model defines for the same settings, for every array layout and number type, order and mixture of trap species, phases, windows, pixel bounce and clocking mode, whatever calls came before, from however many Python threads. The caller's arrays and objects are left unmodified, also when a call is interrupted or runs out of memory, and the same call made again succeeds.",
["inputs","configurations","histories","schedules","fault_sequences"],
"every sequence of Python calls with arbitrary models and array layouts, every interleaving of client threads at line granularity, an interrupt at any line and a failure of any allocation",
"Python tests call a few standard configurations and compare with the same wrapper; argument order and defaults of the 60-odd forwarded parameters are not crossed.",
["python/arcticpy/cti.py","python/arcticpy/wrapper.pyx","src/interface.cpp","python/arcticpy/roe.py","python/arcticpy/ccd.py","python/arcticpy/traps.py","python/arcticpy/pixel_bounce.py"],
"flattening of objects into positional arguments, reconstruction in the C interface, copying of arrays in both directions")

p("C17","The command-line program's exit status tells the truth",
"When the command-line program runs its demonstration and exits with success, both image files are completely written and hold the modelled images; if one of the image files cannot be written completely or read back it exits with a failure status. An unknown option, an option without its value, and a benchmark whose image can neither be found nor downloaded end with a failure status. Without a demonstration no image file is touched.",
["fault_sequences","crash_points"],
"every failing, short or interrupted file operation and every crash point during a run, and every option combination",
"No test runs the program at all.",
["src/main.cpp","src/util.cpp","src/cti.cpp"],
"option handling, the demo's save calls and the final return value")

p("C18","Repeated use does not accumulate memory or open files",
"After a modelling, read-noise or file call has returned, or ended with an exception, and its result is released, the process holds no more heap memory and no more open files than before the call, however many calls are made and whatever modes they use.",
["histories","configurations"],
"every sequence of calls in any mode, including calls that fail with an exception",
"Tests make each call once and do not look at what is left behind.",
["src/traps.cpp","src/read_noise.cpp","src/interface.cpp","src/util.cpp"],
"integration workspaces and root finders of continuum traps, raw scratch buffers, objects created per call by the C interface")

p("C19","Malformed requests are refused before anything is modelled",
"A request that cannot be modelled, such as an empty or ragged image, mismatched numbers of phases, negative offsets, a window outside the image, an odd number of pumping steps or more than one active row in trap pumping, is refused with an error or exception. It never crashes, hangs, reads outside its data or returns an image.",
["inputs","configurations"],
"every inconsistent combination of image, detector, read-out and window settings",
"Tests check a couple of constructor errors only.",
["src/cti.cpp","src/roe.cpp","src/ccd.cpp","src/util.cpp"],
"consistency checks at the start of the one-direction model, in constructors and in the matrix set-up")

p("C20","Separating read noise splits an image without losing anything",
"Separating the read noise of an image gives a smooth frame and a noise frame that add up to the image. The noise frame is what the documented iteration defines for the object's settings (noise level, amplitude scale, model scaling, iterations, smoothing direction, fraction), repeats bit for bit after any other calls, and correcting CTI with read noise set aside uses exactly these frames. No call, optimising the fraction included, changes the caller's image, settings or detector, even when interrupted.",
["histories","inputs","schedules","fault_sequences"],
"every sequence of separations, corrections, estimates and optimisations on shared objects, from several Python threads, interrupted at any line or failing any allocation",
"Tests look at one image and statistics of its noise; shared objects, histories, unusual shapes and failures are never combined.",
["python/arcticpy/read_noise.py","python/arcticpy/cti.py","python/arcticpy/wrapper.pyx","src/read_noise.cpp","src/interface.cpp"],
"the separation loop with its sign changes and early end; the C++ estimate; the handing over of frames to the correction; objects kept between calls")

p("C21","V&V tests recover the trap density and bias that made the trails",
"For an image whose overscan holds a trail of the model's own shape with a given amplitude on a given bias, a V&V test returns the trap density and bias that made it, in either direction, from exactly the columns without objects next to the overscan and outside the prescans and overscans of the other direction. It records one result per test and never changes the image or the model, even when interrupted or when its output fails.",
["histories","inputs","schedules","fault_sequences"],
"every history of tests on shared test benches, every amplitude, bias, background, geometry and trap model, interleaved client threads and interrupts at any line",
"No test of the repository runs the V&V code.",
["python/arcticpy/vv_test.py"],
"selection of pixels by prescan and overscan, iterative rejection of columns with objects, the linear fit of bias and density, the list of results")

p("C22","The Python interface refuses requests that cannot be served",
"A request to the Python package that cannot be served (an image that is not two-dimensional, numeric and non-empty, something else than a trap in the list of traps, a missing or inconsistent detector or read-out, a window outside the image, negative settings, impossible trap pumping or pixel bounce, settings that are not numbers) ends with an exception or with the core's error and failing exit status. It never returns an image, crashes, hangs, changes the caller's objects or keeps memory, however often and between whatever valid requests it is made, and valid requests after it are served as if it had not been made.",
["inputs","configurations","histories","fault_sequences","schedules"],
"every sequence of valid and malformed Python requests by several clients, interrupted at any line or failing any allocation",
"Tests make valid requests only.",
["python/arcticpy/cti.py","python/arcticpy/wrapper.pyx","python/arcticpy/pixel_bounce.py","python/arcticpy/ccd.py","src/interface.cpp","src/cti.cpp"],
"extraction of trap parameters by type, checks of array lengths before pointers are taken, translation of C++ exceptions, constructors")

p("C23","Pixel bounce is the documented oscillation, and removing it undoes it",
"Adding pixel bounce subtracts the documented damped oscillation driven by the changes of signal along each row, for every image layout and number type, window and set of oscillators, whose order does not matter. Removing it is the documented iteration, which returns the original image where it converges. The functions and the methods of the objects agree, results do not depend on earlier calls or on other clients, and the caller's image and objects are never changed, even when a call is interrupted or its output fails.",
["inputs","histories","schedules","fault_sequences"],
"every history of calls on shared images and oscillators by several clients, every image, number type, window and oscillation, an interrupt at any line",
"Tests use a few floating-point images and parameters.",
["python/arcticpy/pixel_bounce.py","python/arcticpy/cti.py"],
"a second-order recurrence along each row with two remembered columns, computed per oscillator and summed; the correction iterates on it")

p("N01","Trap and cloud formulae are numerically accurate",
"The fill fraction after a time, the time for a fill fraction and the cloud volume for a number of electrons agree with their defining integrals and formulae to the stated accuracy for all parameters.",
["inputs"],
"every timescale, width, time and charge",
"Tests sample a few parameter values.",
["src/traps.cpp","src/ccd.cpp"],
"adaptive integration, root finding and log-spaced interpolation tables")

p("N02","The Hubble ACS model returns the published calibration for any date",
"For every date and CCD temperature period, the Hubble ACS model returns the published trap densities, timescales and detector parameters for that date.",
["inputs"],
"every date since installation",
"Tests check one or two dates.",
["python/arcticpy/cti.py"],
"closed-form interpolation in time of published calibration constants")

open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
