"""Writes /verif/properties.jsonl (the property texts live here so they can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

A = 'dedop/proc/sar/algorithms/'
prop('C01', 'L1B records are the delay/Doppler processing of their L1A input',
 "For every valid L1A file and configuration, the L1B product contains one record per surface sample the Delay-Doppler algorithm defines for that input, in along-track order, and each record's position, tracker range, multilooked power waveform, stack description and sigma-0 scaling equal what the algorithm (surface sampling, beam steering, stacking, range alignment, range compression, masking, multilooking) prescribes for the configured options, to numerical and packing precision. "
 "In particular the echo of a point scatterer lying on a surface sample is focused at the reference range gate of that record, independently of how the bursts are buffered internally.",
 ['inputs', 'configurations'], 'all L1A files (orbits, altitudes, tracker ranges, attitudes, echoes, calibration tables), all algorithm option combinations, both output formats',
 "Unit tests check single stages on one frozen data set (most of these do not even run here); no test runs the whole chain, so wrong hand-over between stages, streaming-buffer effects and option interactions are unreached.",
 ['dedop/proc/sar/processor.py', A, 'dedop/data/output/l1b_writer.py', 'dedop/data/input/l1a/l1a_dataset.py'],
 [('streaming chain: surfaces and bursts queues, 80-surface look-ahead', 'dedop/proc/sar/processor.py:L1BProcessor._process'),
  ('algorithm classes', A)],
 ['the NetCDF L1B file written by L1BProcessor.process()', 'the surface objects handed to the product writer'])
prop('C02', 'Every usable burst is used, every unusable one ignored, gaps isolate segments',
 "Exactly the L1A records that are valid and inside the configured region of interest (limits included) take part in a run, each of them once and in file order, wherever invalid or excluded records lie and however many there are. "
 "A time gap between consecutive used records of at least one and a half burst repetition intervals splits the run: no output record mixes bursts from both sides, and the records of one side do not depend on the data of the other side. "
 "A run that cannot produce any record because the input holds too few reports an error; a short last segment never costs the records of earlier ones.",
 ['inputs', 'histories'], 'all patterns of valid / invalid / out-of-region records and time gaps in a file',
 "There is no test of the processing loop; gap, invalid-record and region handling are sequence-dependent and only show on particular record patterns.",
 ['dedop/proc/sar/processor.py', 'dedop/data/input/l1a/l1a_dataset.py', 'dedop/data/input/input_dataset.py'],
 [('gap detection, gap resume', 'dedop/proc/sar/processor.py:_process'), ('ROI filter, validity test, iteration', 'dedop/data/input/l1a/l1a_dataset.py'), ('forced new surface after gap', A + 'surface_locations.py')],
 ['bursts contributing to each written record', 'number and order of L1B records'])
prop('C03', 'Instrument calibration is applied exactly once to every burst',
 "The echoes entering the azimuth processing of every burst are the measured I/Q samples, scaled by the gain setting of that burst, with the burst power/phase calibration and the gain-profile (transfer function) calibration of that same burst each applied exactly once when enabled and not at all when disabled. "
 "This holds for every burst of a run, including those next to gaps and at buffer boundaries.",
 ['inputs', 'configurations', 'histories'], 'all bursts at all positions of all inputs, calibration flags and table indices',
 "The CAL1/CAL2 tests call each step once on one burst; they cannot see a burst being calibrated twice or with another burst's tables inside a run.",
 ['dedop/proc/sar/cal/cal1_algorithm.py', 'dedop/proc/sar/cal/cal2_algorithm.py', 'dedop/proc/sar/processor.py', 'dedop/data/input/l1a/l1a_dataset.py'],
 [('CAL1', 'dedop/proc/sar/cal/cal1_algorithm.py'), ('CAL2', 'dedop/proc/sar/cal/cal2_algorithm.py'), ('call site in main loop', 'dedop/proc/sar/processor.py:_process')],
 ['calibrated waveforms of the bursts in the stacks of written records', 'direct calls of the calibration steps'])
prop('C04', 'A run depends only on its input file and configuration',
 "Processing an L1A file gives the same L1B (and L1BS) product data whatever the same processor object, or any other processor in the process, processed before, whether earlier runs finished, failed or were cancelled, and whether or not the L1BS product is requested. "
 "A run changes no file other than its own products, and a product that was reported as produced is complete and readable, even when the disk is full.",
 ['histories', 'configurations', 'fault_sequences'], 'all sequences of runs (success, cancel, failure) on one or several processor objects',
 "Tests never run the processor twice; leftover state between runs is invisible to single-shot tests.",
 ['dedop/proc/sar/processor.py', A + 'surface_locations.py', 'dedop/conf/auxiliary_parameter.py'],
 [('per-run reset of counters and buffers', 'dedop/proc/sar/processor.py:_process'), ('focus-found latch', A + 'surface_locations.py'), ('parameter cache', 'dedop/conf/auxiliary_parameter.py')],
 ['NetCDF products of consecutive runs', 'directory listing'],
 [('_packets/_surfaces', 'working queues', 'dedop/proc/sar/processor.py'), ('focus_found', 'focusing already done', A + 'surface_locations.py')])
prop('C05', 'Surface samples are spaced by the azimuth resolution along the ground track',
 "The first surface sample of each continuous segment lies beneath its first burst at that burst's tracker range; each following sample lies on the ground track, interpolated between two consecutive bursts, one azimuth beam resolution (as seen from the satellite position of the previous sample) further, with time, satellite position, velocity, altitude rate and attitude interpolated consistently and tracker range equal to satellite altitude minus surface altitude. "
 "With target focusing enabled, where the track passes the target exactly one sample - the closest one - is moved to the point of the track closest to the target; all others stay as without focusing, and a track that only approaches or leaves the target is not changed.",
 ['inputs', 'configurations'], 'all orbits, altitudes, tracker-range profiles, pulse/burst rates, focusing targets',
 "The test replays one frozen sequence; interpolation, focusing selection and high-latitude / date-line geometry are not covered.",
 [A + 'surface_locations.py', 'dedop/model/surface_data.py', 'dedop/proc/functions/vectors.py'],
 [('find_new_location', A + 'surface_locations.py'), ('focus_surface', A + 'surface_locations.py'), ('angular resolution', 'dedop/model/surface_data.py')],
 ['surface objects of written records', 'direct calls of the surface location algorithm'])
prop('C06', 'Geodetic and Cartesian positions are consistent',
 "Converting any geodetic position from below the surface to satellite altitude to Earth-centred Cartesian coordinates and back returns the same position (latitude, longitude modulo a full turn, altitude to two centimetres) everywhere on Earth, poles, equator and date line included. "
 "Angles between vectors are always real values in [0, pi], also for (anti-)parallel vectors, and angle normalisation returns the equivalent angle in [-pi, pi].",
 ['inputs'], 'all latitudes, longitudes, altitudes and vectors',
 "No geodesy unit test exists; singular points and rounding cases need dense sampling.",
 ['dedop/proc/geo/ecef2lla.py', 'dedop/proc/geo/lla2ecef.py', 'dedop/proc/geo/normalize.py', 'dedop/proc/functions/vectors.py'],
 [('closed-form inverse', 'dedop/proc/geo/ecef2lla.py'), ('forward conversion', 'dedop/proc/geo/lla2ecef.py'), ('clamped arccos', 'dedop/proc/functions/vectors.py')],
 ['return values of the conversion functions'])
prop('C07', 'Each burst forms a correctly steered beam to every surface it can see',
 "For every burst, the surfaces it sees are the first uninterrupted run of surface samples inside its unambiguous Doppler cone (at most one per pulse), each with the angle between velocity and line of sight as beam angle. "
 "The beam attributed to a surface is the coherent sum over the burst's windowed pulses steered to that surface: exactly for the exact method, and by the Fourier beam fan steered at the nadir beam, aligned to the surface list, for the approximate method.",
 ['inputs', 'configurations'], 'all burst/surface geometries, including list sizes growing, full and shrinking; window types and widths; both steering methods',
 "Tests compare single bursts with stored results; the list-growing / shrinking cases and window options are untested and the azimuth tests do not run here.",
 [A + 'beam_angles.py', A + 'azimuth_processing.py', 'dedop/model/l1a_processing_data.py', 'dedop/proc/sar/processor.py'],
 [('visibility test', A + 'beam_angles.py'), ('trend', 'dedop/model/l1a_processing_data.py:calculate_beam_angles_trend'), ('phase steering + FFT', A + 'azimuth_processing.py')],
 ['beam angle lists, focused beams of bursts in stacks', 'direct algorithm calls'])
prop('C08', 'A stack holds exactly the beams that look at its surface, in order',
 "The stack of a surface consists of the beams steered to that surface by all bursts that see it, in acquisition order; if there are more than the configured number of looks, it is cut to that number of consecutive beams covering those closest to zero look angle, and unused places stay empty. "
 "Every beam keeps the beam, Doppler, look and pointing angle, look index, sampling interval and burst counter of its own burst, and the closest burst is the one whose beam angle is nearest to perpendicular. "
 "A surface is dropped only when its stack holds fewer than half the configured number of looks.",
 ['inputs', 'configurations'], 'all stack sizes below, at and above the configured number of looks',
 "The test uses one stored stack; cutting, ordering and drop rules at their limits are not exercised.",
 [A + 'stack_gathering.py', 'dedop/model/surface_data.py', 'dedop/proc/sar/processor.py'],
 [('centring cut', A + 'stack_gathering.py'), ('beam index bookkeeping', 'dedop/model/surface_data.py:add_stack_beam_index'), ('drop rule', 'dedop/proc/sar/processor.py')],
 ['stack arrays of written records', 'direct algorithm calls'])
prop('C09', 'Beams are range-aligned by exactly the geometric delays, then compressed',
 "Each beam of a stack is shifted by the sum of the Doppler, slant-range and window-delay corrections computed from that beam's own geometry (a disabled correction is zero; the slant distance is reported either way), without changing the energy of the beam. "
 "Range compression is the energy-preserving zero-padded Fourier transform of the aligned beam with zero frequency in the centre, and the power is its squared modulus.",
 ['inputs', 'configurations'], 'all beams, geometries, zero-padding factors, correction flags',
 "Geometry and range compression tests do not run here and use one stored stack; sign or cross-beam mix-ups at other geometries are unreached.",
 [A + 'geometry_corrections.py', A + 'range_compression.py'],
 [('corrections', A + 'geometry_corrections.py'), ('FFT with zero padding', A + 'range_compression.py')],
 ['correction arrays and compressed beams of written records', 'direct algorithm calls'])
prop('C10', 'Masking removes only wrapped or out-of-range samples; multilooking averages',
 "With masking on, a sample is removed exactly if the range alignment of its beam (rounded to whole gates) wrapped it around the window or if the beam's look angle is outside the configured limits; with masking off nothing is removed. "
 "The multilooked waveform is for each sample the mean over the contributing beams (over their unmasked samples only when zeros are to be avoided), optionally weighted by the antenna pattern interpolated at each beam's pointing angle, and is finite. "
 "The start/stop description refers to exactly those beams, and the fitted stack statistics to the (at most 249) central ones of the stack. The look-angle limits apply when both are configured.",
 ['inputs', 'configurations'], 'all shift patterns, look-angle limits, flag combinations, empty beams, stacks of any size',
 "One stored stack only; the option combinations, fully masked beams and samples without any contribution are not tested.",
 [A + 'stack_masking.py', A + 'multilooking.py'],
 [('geometry / angle masks', A + 'stack_masking.py'), ('averaging, antenna weights, gaussian fit', A + 'multilooking.py')],
 ['mask, mask vector, waveform of written records', 'direct algorithm calls'])
prop('C11', 'The sigma-0 scaling factor follows the radar equation for every look',
 "For every record the sigma-0 scaling factor is the average over its looks of the radar-equation factor for that look's slant range, satellite speed and resolution cell with the configured instrument constants and the gain setting of the burst closest to the surface. "
 "It depends only on the looks in the stack.",
 ['inputs', 'configurations'], 'all stacks, ranges, speeds, gains and instrument constants',
 "The test evaluates one stored stack and does not vary constants, stack size or gain.",
 [A + 'sigma_zero_scaling.py', 'dedop/proc/sar/processor.py'],
 [('sigma0 formula', A + 'sigma_zero_scaling.py')],
 ['sigma0 scaling factor of written records', 'direct algorithm calls'])
prop('C12', 'L1A records are read faithfully in any access order',
 "Every value of a record delivered by the L1A reader is the decoded file value (scale and offset applied, physical units converted) of exactly that record, for files of any length and any access order, sequential or random, also around internal read-ahead boundaries; the tracker range includes the centre-of-gravity correction and the satellite and ground positions follow from the record's geodetic position and tracker range. "
 "Reads by index and further iterations in between do not disturb a sequential reading, and the first and last time are those of the first and last record of the region. The global attributes are delivered as stored, and asking for a record beyond the end of the file is refused.",
 ['inputs', 'histories'], 'all file lengths, record contents and access sequences',
 "The reader test looks at a few records of one short file; block boundaries and non-sequential access are not covered.",
 ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/data/input/netcdf_reader.py', 'dedop/model/l1a_processing_data.py'],
 [('block cache', 'dedop/data/input/netcdf_reader.py'), ('record construction', 'dedop/data/input/l1a/l1a_dataset.py:__getitem__')],
 ['records returned by the dataset'])
prop('C13', 'The L1B file states what was computed, in its declared units',
 "Reading back any L1B variable of any record, in the standard or the extended format, with its declared packing gives the value computed for that record within half a packing step, in the units declared for the variable; units, range and resolution of the variables are (at least) those of the product definition; nothing is wrapped, truncated or taken from another record, and the record count equals the number of records written. "
 "Instrument status fields come from the burst closest to the surface.",
 ['inputs', 'configurations'], 'all representable values of all fields, both output formats, any number of records',
 "Writer tests write one made-up record and check a few fields.",
 ['dedop/data/output/l1b_writer.py', 'dedop/data/output/netcdf_writer.py'],
 [('variable definitions and packing', 'dedop/data/output/l1b_writer.py'), ('generic writer', 'dedop/data/output/netcdf_writer.py')],
 ['NetCDF L1B file versus surface objects handed to the writer'])
prop('C14', 'The L1BS file holds the stack behind each L1B record',
 "When requested, the L1BS product has exactly one record per L1B record, in the same order, and each record's stack (complex beams to one step of their 8-bit quantisation at the stated per-beam scale, stack size, beam / look / Doppler / pointing angles) and ancillary values read back as computed for that record within packing precision and in the declared units, which with range and resolution are (at least) those of the product definition.",
 ['inputs', 'configurations'], 'all stacks (full and partial), all configurations',
 "The L1BS writer test does not exercise real stacks, partial stacks or several records.",
 ['dedop/data/output/l1bs_writer.py', 'dedop/data/output/netcdf_writer.py', 'dedop/proc/sar/processor.py'],
 [('variable definitions and packing', 'dedop/data/output/l1bs_writer.py')],
 ['NetCDF L1BS file versus surface objects handed to the writer'])
prop('C15', 'Product times and provenance match the input',
 "The time, UTC day and UTC seconds of every record denote the same instant as its along-track position between the two enclosing bursts, across midnight and leap seconds included, with seconds inside the length of their day. "
 "Product names, first/last measurement time, ellipsoid parameters and all cross-reference attributes are those of the processed input (missing ones marked as not available), and the product files are named after the input file and the run name.",
 ['inputs', 'configurations', 'histories'], 'all acquisition times (day boundaries, leap seconds, segment starts), region limits, attribute sets',
 "No test covers UTC conversion across day boundaries nor the products' global attributes.",
 ['dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py', 'dedop/proc/sar/processor.py', 'dedop/util/time.py', A + 'surface_locations.py'],
 [('UTC from previous burst', 'dedop/data/output/l1b_writer.py'), ('globals', 'dedop/proc/sar/processor.py:_process'), ('iso time', 'dedop/util/time.py')],
 ['NetCDF time variables and attributes', 'file names'])
prop('C16', 'Auxiliary files are read completely, strictly and in isolation',
 "Every parameter read from a configuration, constants or characterisation file is the value in that file, converted to its documented type and unit; a parameter absent from the file yields its default if it is optional and an error naming it otherwise, unknown parameters are warned about and ignored, invalid choices are rejected, and files of another format version are refused. "
 "Values of one loaded file never influence another, and explicitly given values override the file.",
 ['inputs', 'histories'], 'all file contents, versions, missing/unknown/ill-typed parameters, numbers of loaded files',
 "Tests load one good file of each kind and a few bad ones.",
 ['dedop/conf/auxiliary_file_reader.py', 'dedop/conf/auxiliary_parameter.py', 'dedop/conf/configuration.py', 'dedop/conf/characterization.py', 'dedop/conf/constants.py', 'dedop/proc/sar/base_algorithm.py', 'dedop/util/parameter.py'],
 [('descriptor with cast and cache', 'dedop/conf/auxiliary_parameter.py'), ('version check', 'dedop/conf/auxiliary_file_reader.py'), ('algorithm parameter collection', 'dedop/proc/sar/base_algorithm.py')],
 ['attribute values, warnings and errors of the reader classes'])
prop('C17', 'Upgrading a configuration keeps user settings and ends at the current version',
 "Upgrading a configuration of any older version gives a file of the current version that loads without error, in which parameters added or changed since that version have their default definition, removed ones are gone, and every other parameter keeps the user's value; a configuration at (or above) the current version is left unchanged, and upgrading twice equals upgrading once.",
 ['inputs', 'histories', 'configurations'], 'all older versions, all user edits, all change histories (add / modify / remove in any order)',
 "Tests check four fixed change-log examples and only the merging step, not the stored files.",
 ['dedop/ui/workspace_manager.py'],
 [('change-log driven merge', 'dedop/ui/workspace_manager.py:_do_upgrade_config'), ('rewrite', 'dedop/ui/workspace_manager.py:write_config_file')],
 ['configuration files on disk before and after upgrade'])
prop('C18', 'Workspace operations do exactly what they say and never lose data',
 "Under any sequence of create, copy, rename, delete, select and list operations the set of workspaces, their complete contents and the current selection are those of the obvious model: each operation changes only the workspace(s) it names, a copy is complete and independent, a rename keeps everything, and listings are exact and sorted. "
 "An operation that is invalid (missing or empty source, existing or empty target) is reported as a workspace error and changes nothing. An operating system error during an operation is reported as a workspace error too and damages nothing but what the operation was to change.",
 ['histories', 'inputs', 'fault_sequences'], 'all operation sequences over all workspace names and contents',
 "Tests check single operations on one or two workspaces.",
 ['dedop/ui/workspace_manager.py', 'dedop/ui/workspace.py'],
 [('directory operations', 'dedop/ui/workspace_manager.py'), ('.current file', 'dedop/ui/workspace_manager.py:set_current_workspace_name')],
 ['file tree below the workspaces directory, return values and errors'])
prop('C19', 'DDP configurations are isolated, complete and never lost',
 "Under any sequence of create, copy, rename, delete, select, edit and list operations on the configurations of workspaces, each configuration consists of the three parameter files it was created with (standard or CryoSat template) plus exactly the user's edits; a newly created one is of the current version and accepted by the processor; operations affect only the configuration(s) they name, and the current selection reads back as set. "
 "Invalid operations (missing source, existing target) raise a workspace error and change nothing. An operating system error during an operation is reported as a workspace error too and damages nothing but what the operation was to change.",
 ['histories', 'inputs'], 'all operation sequences over all workspaces and configuration names',
 "Tests check single operations on fresh workspaces.",
 ['dedop/ui/workspace_manager.py'],
 [('template copy', 'dedop/ui/workspace_manager.py:create_config'), ('directory operations', 'dedop/ui/workspace_manager.py')],
 ['file tree below configs, return values and errors'])
prop('C20', 'Inputs and outputs of a workspace are stored, listed and removed exactly',
 "Adding inputs stores byte-identical copies and leaves the originals alone; listing inputs or outputs returns exactly the product files matching the given name pattern or any of several patterns, each once and sorted; removing deletes exactly the named inputs, or all outputs of exactly the named configuration; new notebooks never overwrite existing ones, refer to the product paths they were created for and are opened in the notebooks folder of their workspace. An operating system error during an operation is reported as a workspace error too and damages nothing but what the operation was to change.",
 ['histories', 'inputs'], 'all operation sequences, file names and patterns',
 "Tests add and list two files with one pattern.",
 ['dedop/ui/workspace_manager.py', 'dedop/ui/workspace_info.py'],
 [('add_inputs / remove_inputs / remove_outputs', 'dedop/ui/workspace_manager.py'), ('fnmatch listing', 'dedop/ui/workspace_manager.py:get_nc_filename_list')],
 ['file tree, returned lists'])
prop('C21', 'The command line acts on the selected workspace and configuration only',
 "Every command acts on the workspace and configuration named on the command line or else on the current ones, and changes nothing else; a processing run is given that configuration's three parameter files, the selected inputs each exactly once, and the output folder and run name that belong to that configuration. "
 "Failures, operating system errors included, are reported by a non-zero exit code and a message, success by exit code zero.",
 ['histories', 'inputs', 'configurations'], 'all command sequences and option combinations',
 "Command line tests cannot run in this environment and check message texts for single commands.",
 ['dedop/cli/main.py', 'dedop/ui/workspace_manager.py'],
 [('argument to workspace/config resolution', 'dedop/cli/main.py'), ('run command', 'dedop/cli/main.py:RunProcessorCommand')],
 ['exit code, output text, file tree, arguments received by the processor'])
prop('C22', 'Progress reporting is truthful and cancellation stops a run cleanly',
 "A task observed by a progress monitor starts once, never reports more than its total work, reports all of it on success and is always ended, also on errors; nested tasks contribute exactly their share. "
 "After a cancellation request, by API or keyboard interrupt, a processing run stops promptly, reports that it is incomplete and leaves readable products that hold a leading part of the complete ones, and the keyboard interrupt handling that was active before is back in force when the task ends.",
 ['schedules', 'histories', 'fault_sequences'], 'all cancellation points, nesting patterns, failures',
 "Tests record a handful of fixed progress sequences and never cancel a processing run.",
 ['dedop/util/monitor.py', 'dedop/proc/sar/processor.py', 'dedop/model/processor.py'],
 [('starting() context', 'dedop/util/monitor.py'), ('child share', 'dedop/util/monitor.py:ChildMonitor'), ('cancel test in main loop', 'dedop/proc/sar/processor.py'), ('SIGINT handler swap', 'dedop/util/monitor.py:ConsoleMonitor')],
 ['event log of a recording monitor, console output, signal handler, product files'])
prop('C23', 'The web service exposes the same operations as the workspace model',
 "Each service request has exactly the effect and result of the corresponding workspace, configuration, input or output operation on the named objects, with JSON-serialisable results; after deleting a workspace or configuration the current selection is an existing one (the default one if present) or none. "
 "Saving configurations stores exactly the given parameters, leaves files for which none are given alone, and reading returns what is stored.",
 ['histories', 'inputs'], 'all request sequences over all names and contents',
 "Web service tests cannot run in this environment and check single requests.",
 ['dedop/webapi/websocket.py', 'dedop/ui/workspace_manager.py'],
 [('request methods', 'dedop/webapi/websocket.py:WebSocketService')],
 ['returned JSON, file tree'])
prop('C24', 'Tool settings come from the configuration files and nothing is lost',
 "A setting has the value assigned in the local dedop-config.py if that defines it, else in ~/.dedop/config.py, else the caller's default; both files may use any Python code; paths have a leading ~ expanded; settings are read once per process into one mutable dictionary; an empty name is refused. "
 "A file that cannot be read or fails contributes nothing, is reported, and does not stop the tool nor disturb the other file. A missing user file is created from the template, an existing one is never changed. "
 "The settings take effect: workspaces live in workspaces_dir only, runs use the configured processor_factory, and notebooks and editors are started with exactly the configured command (invalid commands are refused), else with the notebook command on whatever terminal is available.",
 ['inputs', 'crash_points'], 'all contents and failure states of the two configuration files, all setting names and defaults, all launch templates',
 "Tests look up one missing name and parse one two-line text; precedence, broken files, first start and the effect on the tool are not tested.",
 ['dedop/util/config.py', 'dedop/ui/workspace_manager.py', 'dedop/cli/main.py'],
 [('configuration lookup', 'dedop/util/config.py:get_config'), ('launching', 'dedop/ui/workspace_manager.py:WorkspaceManager.launch_notebook'), ('settings applied', 'dedop/cli/main.py:main')],
 ['returned settings, files written, commands handed to the operating system'])
prop('C25', 'Inspecting and comparing products shows what the files contain',
 "For every L1B product, the inspector exposes exactly its dimensions, variables, attributes, positions, times and their ranges, and the waveform as stored power times the record's scale factor; the comparator exposes both products and their element-wise waveform difference; files that are no products and pairs of different shape are refused. "
 "Every figure shows the data of the variable, record or product asked for, with the display limits asked for (zero included) or else the range of the data shown, and labels naming it; in a notebook the selectable names and indices are exactly the valid ones. "
 "With an output directory each figure is saved in a file of its own name, with a PDF document each is one page; products are never changed.",
 ['inputs', 'histories'], 'all products (including all the processor writes), all variables, indices, display limits and output formats, all sequences of figures',
 "The inspection tests cannot run in this environment and only open one file; no test looks at a figure.",
 ['dedop/ui/inspect.py', 'dedop/ui/compare.py', 'dedop/ui/figurewriter.py'],
 [('inspector', 'dedop/ui/inspect.py:L1bProductInspector'), ('figures', 'dedop/ui/inspect.py:L1bProductInspectorPlots'), ('comparator', 'dedop/ui/compare.py:L1bProductComparator'), ('figure files', 'dedop/ui/figurewriter.py:FigureWriter')],
 ['exposed arrays, captured figures, written files'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as fp:
    for d in P: fp.write(json.dumps(d) + '\n')
print(len(P))
