"""Writes properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, *mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})

p("C01", "Every live particle takes exactly one step per time step until the end time",
  "Each event runs steps of the configured length for as long as the simulation time, which starts at zero, is below the end time; in every step each living particle is moved once and then offered to every configured process, and its own clock advances by one step with its recorded position and momentum. A particle created during a step starts at its parent's place and clock and takes its first step in the next one, and a dead particle never moves, reacts or ages again. This holds for the command-line program and for the Python driver, for every event alike.",
  ["inputs", "configurations", "histories"], "all configurations, all step lengths (also ones that do not divide the end time), all histories of emissions and pair creations",
  "The driver tests run one or two short configurations and look only at files being produced; step counts, clocks and the first step of secondaries depend on the history of emissions.",
  ["Source/Exec/QEDCASC.cpp", "Source/Python/RunManager.cpp", "Source/Physics/ParticlePushers/ParticlePusher.cpp", "Source/Particles/Particle.cpp"],
  ("time loop and particle loop", "QEDCASC.cpp main, RunManager::beamOn"), ("clock and history update", "ParticlePusher::PushParticle, Particle::UpdateTime/UpdateTrack"))

p("C02", "Quantum photon emission conserves momentum and follows the optical depth",
  "In the quantum model a living lepton's optical depth falls in each step by step*sqrt(3)*alpha*eta*h(eta)/(2 pi gamma), with eta its quantum parameter in the local field and h from the table; a photon is emitted exactly when the optical depth falls below zero, after which a fresh exponentially distributed optical depth is drawn. The emitted photon travels along the lepton's direction with energy 2*chi*gamma/eta, chi being sampled from the photon table, and the lepton loses exactly that momentum whether or not the photon is kept. A photon is kept when its energy exceeds the minimum energy, with probability equal to the sample fraction, and then carries the parent's weight divided by the sample fraction, the parent's position and clock; photons and dead particles never emit.",
  ["inputs", "histories"], "all leptons (either charge, any momentum, weight, optical depth), fields, step lengths, sample fractions, minimum energies and random draws",
  "The unit tests compare one mean spectrum; single emissions, their recoil, thresholds and bookkeeping are never compared with the model for arbitrary inputs and draws.",
  ["Source/Physics/Processes/StochasticEmission.cpp", "Source/Physics/Processes/PhotonEmission.cpp"],
  ("emission step", "StochasticEmission::Interact"), ("eta, chi sampling and tables", "PhotonEmission::CalculateEta/CalculateChi/LoadTables"))

p("C03", "Continuous photon emission radiates the right energies and weights",
  "In the classical and semiclassical models a living lepton radiates, in each step with probability equal to the sample fraction, one macro-photon whose weight is the parent's weight times the step's emission rate step*sqrt(3)*alpha*eta*h/(2 pi gamma) divided by the sample fraction; the lepton's own momentum is not changed by the emission. Its energy is 2*chi*gamma/eta along the lepton's direction, at the lepton's position and clock, where the semiclassical model samples chi and h from the tables at eta and the classical model uses the constant classical rate and a chi sampled at a small reference eta (the exponential of the first entry of the h table) and scaled with eta squared. A macro-photon whose energy does not exceed the minimum energy is not kept.",
  ["inputs", "histories"], "all leptons, fields, step lengths, sample fractions, minimum energies and random draws, in both models",
  "No test runs this process on single draws; weights and the classical extrapolation are not compared with anything.",
  ["Source/Physics/Processes/ContinuousEmission.cpp", "Source/Physics/Processes/PhotonEmission.cpp"],
  ("macro-photon emission", "ContinuousEmission::Interact"))

p("C04", "Pair creation conserves energy, charge and direction, and ends the photon",
  "A living photon's optical depth falls in each step by step*alpha*chi*T(chi)/energy, with chi half its energy times the field transverse to its direction, unless chi is zero or its energy does not exceed two rest energies, in which case nothing happens. Exactly when the optical depth falls below zero the photon dies and one electron and one positron with the photon's weight, position and clock appear, both along its direction, their total energies adding up to the photon's energy, each at least the rest energy, shared by the sampled split fraction. Leptons and dead photons never do anything in this process.",
  ["inputs", "histories"], "all photons (any energy, direction, weight, optical depth), fields, step lengths and random draws",
  "The existing test checks that pairs appear; energy sharing at the threshold, zero field and bookkeeping of the pair depend on inputs it does not sample.",
  ["Source/Physics/Processes/NonLinearBreitWheeler.cpp"], ("pair creation step", "NonLinearBreitWheeler::Interact"), ("split sampling", "NonLinearBreitWheeler::CalculateSplit"))

p("C05", "Particle sources produce the configured beam, one particle per event",
  "A source of N particles yields exactly N primaries, each of the configured type with unit weight, zero clock and its own independent draw, and asking for more ends the program with an error. Energies are total energies, a lepton with no more than its rest energy being at rest: all equal to the first parameter (mono), normal with mean and standard deviation (gaussian), or uniform between the two parameters (linear). Positions are normal with the radius across and the duration along the beam direction around the configured position, directions deviate from the beam axis by a normal polar angle of the divergence with uniform azimuth.",
  ["inputs", "configurations"], "all particle types, distributions, parameters, beam directions (also antiparallel to z and unnormalised) and random draws",
  "The source test samples means of one configuration and no rotation other than the identity.",
  ["Source/Particles/SourceGenerator.cpp", "Source/Particles/Lepton.cpp", "Source/Particles/Photon.cpp", "Source/Tools/ThreeVector.hh"],
  ("sampling and rotation", "SourceGenerator constructor, GenerateList"), ("particle energy and momentum", "Lepton and Photon constructors"))

p("C06", "Electromagnetic fields have the configured geometry and form a light wave",
  "A static field is the configured pair of vectors everywhere and at all times. Plane, gaussian and focusing lasers travel along the configured direction (from the start point to the focus), have the configured peak field, wavelength, polarisation angle, and (gaussian, focusing) waist, duration and focus: the pulse envelope is centred at the start at time zero and reaches the focus after travelling the distance between them. For a plane and a gaussian wave the electric and magnetic fields are transverse, of equal size, mutually perpendicular, with electric cross magnetic along the propagation direction, at every point and time; rotating or shifting the configuration rotates or shifts the field.",
  ["inputs", "configurations"], "all points, times, wave parameters and directions of propagation",
  "The field tests compare a few points for a wave along z from the origin, where rotation, focus offset and polarisation errors vanish.",
  ["Source/Physics/Fields/EMField/StaticEMField.cpp", "Source/Physics/Fields/EMField/PlaneEMField.cpp", "Source/Physics/Fields/EMField/GaussianEMField.cpp", "Source/Physics/Fields/EMField/FocusingField.cpp"],
  ("field evaluation", "GetField of each field class"))

p("C07", "Particles move by the equation of motion of the chosen model",
  "A massive particle's step is the classical fourth-order Runge-Kutta step of dx/dt = p/(m gamma) and dp/dt = q(E + v x B), with the field taken at the right times and places; the classical model adds the Landau-Lifshitz drag -2/3 alpha eta^2 along the direction of motion and the semiclassical model multiplies this drag by the quantum correction g(eta). A massless particle moves one step in its direction of motion at the speed of light with unchanged momentum. Every step advances the particle's clock and, when tracked, appends exactly one entry of time, position, momentum and gamma, and a dead particle or a particle at rest in no field does not move.",
  ["inputs"], "all particles (either charge, any mass and momentum), time and space dependent fields, step lengths, and all three models",
  "The pusher tests follow one electron in a uniform field and compare with a loose tolerance.",
  ["Source/Physics/ParticlePushers/ParticlePusher.cpp", "Source/Physics/ParticlePushers/LorentzPusher.cpp", "Source/Physics/ParticlePushers/LandauPusher.cpp", "Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp"],
  ("Runge-Kutta step", "ParticlePusher::PushParticle"), ("force laws", "PushMomentum of each pusher"))

p("C08", "Event tables in the output file list every primary and every survivor once",
  "For each source with output switched on the file holds one group with the table of primaries, one row per event, and one table per species with one row for each particle of that species alive at the end of each event; no particle is missing, repeated, listed dead or listed under another species or event. Each row is event number, energy, three momentum and three position components of that particle, primaries as generated and finals as they are at the end. Any number of sources, with or without output, in any order and of any size can be written to one file.",
  ["inputs", "configurations", "histories"], "all numbers of events, sources, particles per event, species mixes and histories",
  "The output test writes one small list; counts and several sources are never compared with the particles themselves.",
  ["Source/IO/Output/OutputManager.cpp", "Source/IO/Output/HDF5Output.cpp", "Source/Exec/QEDCASC.cpp"],
  ("per-event buffers", "OutputManager::InitSource/StoreSource"), ("table assembly", "OutputManager::OutputEvents"))

p("C09", "Recorded tracks are complete and written once",
  "With tracking on, the file holds for every particle of every event exactly one track whose time, position, momentum and gamma columns have one row per recorded step, in step order, equal to what the particle recorded; tracks of several sources are all kept, under distinct names. Single-particle and particle-list track output writes the same columns under the given name, scaled to the output unit system when one is given, and asking for tracks of an untracked particle is refused. Without tracking no track is written.",
  ["inputs", "configurations", "histories"], "all track lengths, particle numbers, sources, repeated calls and unit systems",
  "One test writes one track and checks that it does not crash.",
  ["Source/IO/Output/OutputManager.cpp", "Source/Particles/Particle.cpp", "Source/Exec/QEDCASC.cpp"],
  ("track collection and output", "OutputManager::StoreTrack/OutputEvents/SingleParticle/ListTracks"))

p("C10", "Histograms count each qualifying particle once, in its bin, at its time",
  "Histograms are listed in the order of their times. A histogram counts, at the first step at which the simulation time is at least its time (or at the end of the event if that never comes), each living particle of its species exactly once, in the bin whose centre is nearest to the particle's energy, position or momentum component as configured, if that value lies strictly between the first and the last bin centre, and not otherwise. Bin centres are equally spaced from the first to the last configured value. Filling from a list normalises the contents to a sum of one when anything was counted, and merging two histograms with the same bins adds their contents.",
  ["inputs", "configurations", "histories"], "all bin layouts, quantities, species, times (also several histograms at the same time) and particle populations",
  "The histogram test fills one energy histogram; timing, other quantities, edges and empty fills are not reached.",
  ["Source/IO/Output/Histogram.cpp", "Source/Exec/QEDCASC.cpp"],
  ("binning", "Histogram::AppParticle/Fill/Merge"), ("timing", "QEDCASC.cpp main"))

p("C11", "The MPI run gathers the same output as the union of its ranks, without deadlock",
  "For any number of ranks and any schedule of message delivery, every rank finishes and the master's file holds, for each source with output on, the rows of every rank's primaries and survivors exactly once, and for each histogram the sum of all ranks' counts in the common bins. This also holds when ranks have different numbers of particles, or none of a species. Only the master writes the file.",
  ["schedules", "inputs", "configurations"], "all numbers of ranks, message orders and relative speeds, and population sizes per rank",
  "No test runs MPI at all (it is only compiled).",
  ["Source/IO/Output/OutputManager.cpp", "Source/Exec/QEDCASC.cpp"],
  ("gathering", "OutputManager::OutputEventsMPI/OutputHistMPI"))

p("C12", "Multithreaded runs lose, repeat or mix nothing",
  "A run on any number of threads generates every event of the source exactly once and reports the primary and all survivors and tracks of every event exactly once, as if the events were run one after the other; events do not influence each other and no random number stream is shared or corrupted between threads. The number of histogram entries is that of the particles counted. Starting such a run repeatedly, with other numbers of threads, gives the same guarantees each time.",
  ["schedules", "inputs"], "all thread counts and interleavings, event numbers smaller or larger than the number of threads",
  "The tests run one thread; races need particular interleavings.",
  ["Source/Exec/QEDCASC.cpp", "Source/Python/RunManager.cpp", "Source/Particles/SourceGenerator.cpp", "Source/Tools/MCTools.cpp", "Source/Tools/MCTools.hh"],
  ("atomic event counter", "SourceGenerator::GenerateList"), ("per-thread generator", "MCTools.hh"), ("critical sections and per-thread buffers", "QEDCASC.cpp main, RunManager::beamOn"))

p("C13", "The input file is read as written, with documented defaults and SI conversion",
  "Every setting of the input file reaches the simulation with its value converted from SI to the simulation's units (times, lengths, fields and energies), and each absent setting has its default; angles, fractions, counts, directions and histogram bin limits are not converted. Section and key names are matched without regard to case as the reader documents, comments and blank lines are ignored, vectors accept any common separators, signs and exponents, and Particle1, Particle2, ... and Histogram1, Histogram2, ... are read in order up to the first missing number. Booleans accept true/yes/on/1 and false/no/off/0 in any case.",
  ["inputs", "configurations"], "all input files the format allows",
  "The parser has no test; the example file exercises one value per key.",
  ["Source/IO/Input/FileParser.cpp", "Source/IO/Input/INIReader.cpp", "Source/IO/Input/ini.cpp"],
  ("section readers", "FileParser::Read*"), ("typed lookups", "INIReader::Get*"))

p("C14", "Invalid input is refused with an error before anything is simulated",
  "The program refuses, with a non-zero exit status and an error message and without hanging or being killed by a signal, a missing input file, a wrong number of arguments, an argument that is not an .ini file, a file without the General section or without time step, end time or units, an unknown unit system, a time step that is not positive, an unknown field type or radiation model, a negative number of particles or bins, and a vector with more than three components. A source of unknown particle type is refused too, at the latest when its first particle is generated. Valid input is never refused.",
  ["inputs", "configurations"], "all command lines and input files with one or more of these faults",
  "No test starts the program with a faulty input.",
  ["Source/Exec/QEDCASC.cpp", "Source/IO/Input/FileParser.cpp", "Source/Tools/UnitsSystem.cpp", "Source/Particles/SourceGenerator.cpp"],
  ("argument and section checks", "QEDCASC.cpp main, FileParser::CheckVitals/ReadGeneral/ReadField"))

p("C15", "The Python run manager follows its set-up protocol",
  "A run takes place exactly when a positive time step, a known field, a known physics model and a known particle type were last set, the number of events is not negative and there is at least one thread; setting an unknown field, model or particle type makes later runs refuse until a valid one is set, and an out-of-range sample fraction leaves the old one in force. A refused run reports an error, simulates nothing and leaves the previous results readable and the manager usable. Settings persist from run to run and the last value set is the one used, each run replaces the previous results, and the package works with the data tables it brings along.",
  ["histories", "inputs"], "all sequences of set-up calls, runs and result reads",
  "The Python test makes one correct sequence of calls.",
  ["Source/Python/RunManager.cpp"], ("set-up flags and checks", "RunManager::set*, RunManager::beamOn"))

p("C16", "Table lookups and quadrature are exact inside and defined outside the table",
  "One-dimensional interpolation returns the tabulated value at every sample point, lies on the straight line between neighbouring samples, and continues the first and last segment linearly outside the table. The nearest-sample search returns the index of the sample closest to the query (an end for queries beyond it), and the bracketing search returns the lower neighbour and the fractional distance for queries inside the table and refuses queries beyond its end. Quadrature integrates cubic polynomials on an odd number of equally spaced points exactly.",
  ["inputs"], "all strictly increasing axes of any length and all queries, including the exact sample points and both ends",
  "The tests query a few interior points.",
  ["Source/Tools/Numerics.cpp"], ("interpolation and searches", "Numerics::Interpolate1D/ArrayIndex/ClosestPoints/SimpsonsRule"))

p("C17", "Random sampling has the requested distributions and seeds reproduce it",
  "Uniform, normal, Poisson and discrete sampling return values in the support of the requested distribution with the requested parameters: discrete sampling returns every index with positive weight with a frequency proportional to its weight and never one with zero weight, for unnormalised weights too. After setting the same seed the same sequence of calls returns the same values, different seeds give different sequences, and without a seed every run differs. A new particle's optical depth is exponentially distributed with mean one, so it is positive and finite.",
  ["inputs", "histories"], "all parameters, weight vectors, seeds and call sequences",
  "The tests look at the mean of one sample.",
  ["Source/Tools/MCTools.cpp", "Source/Tools/MCTools.hh", "Source/Particles/Particle.cpp"],
  ("samplers and seed", "MCTools"), ("optical depth", "Particle::InitOpticalDepth"))

p("C18", "The unit system is one consistent set of Schwinger units",
  "The reference units derived from SI are consistent with each other: length is light speed times time, time is the inverse of the reference frequency, frequency is Schwinger field times elementary charge over electron mass and light speed, momentum is m c, energy is m c^2, and the magnetic unit is the electric unit over c, with the physical constants at their CODATA values; the Geant4 conversions are nanosecond, millimetre and MeV in these units. Names SI and si are accepted and every other name is refused with a non-zero exit.",
  ["inputs", "configurations"], "all unit names and all derived units",
  "The unit test prints values.",
  ["Source/Tools/UnitsSystem.cpp", "Source/Tools/UnitsSystem.hh"], ("reference units", "UnitsSystem::SetUnitsSI/SetG4Units"))

p("C19", "Vectors, matrices and rotations obey their algebra",
  "Vector and matrix operations (sum, difference, products, quotients, dot, cross, norm, direction, determinant, inverse, identity, matrix products) give the mathematical result, the norm of the zero vector is the zero vector, and operands are never changed. The rotation from one direction to another is a proper rotation (orthogonal, determinant one) that takes the first direction exactly onto the second and leaves their common normal fixed, for every pair of non-zero vectors of any length, parallel and antiparallel ones included. A matrix times its inverse is the identity.",
  ["inputs"], "all finite vectors and invertible matrices, all pairs of directions",
  "The tests use a handful of vectors and no antiparallel pair other than along one axis.",
  ["Source/Tools/ThreeVector.hh", "Source/Tools/ThreeMatrix.hh"], ("vector algebra", "ThreeVector"), ("matrix algebra", "ThreeMatrix"))

p("C20", "Python result arrays hold every particle in SI units with the right columns",
  "After a run the input array has one row per event with the primary's momentum and position in SI units (six columns), and the electron, positron and photon arrays have one row for each particle of that species alive at the end of any event with momentum, position and weight (seven columns), and nothing else. An array is empty with the right number of columns when there is nothing to report, before the first run too. The rows depend only on the events simulated, not on the number of threads.",
  ["inputs", "configurations", "histories"], "all configurations, event numbers and thread counts",
  "The Python test looks at array shapes of one run.",
  ["Source/Python/RunManager.cpp", "Source/Python/QEDCascPy-Bindings.cpp"], ("result collection", "RunManager::beamOn, RunManager::get*"))

p("C21", "A whole run is the composition of source, motion and processes",
  "For given random draws a whole run of the program produces exactly the particles, clocks, momenta, positions, weights and histograms that generating the primaries, moving them step by step with the model's equation of motion in the configured field and applying the model's processes after each move produce; the radiation model named in the input selects its motion and its emission process, and pair creation happens only when switched on. In every event charge and lepton number are conserved: survivors have one more electron than positrons per electron primary, one more positron per positron primary, and equally many of both per photon primary. With neither field nor emission every particle keeps its momentum.",
  ["inputs", "configurations", "histories"], "all radiation models, fields, primaries, pair creation on or off, and random draws",
  "No test compares a run of the program with anything.",
  ["Source/Exec/QEDCASC.cpp", "Source/Python/RunManager.cpp", "Source/Physics/Processes", "Source/Physics/ParticlePushers"],
  ("model selection and composition", "QEDCASC.cpp main, RunManager::beamOn"))

p("C22", "Field and particle-list dumps show the field and the particles",
  "Dumping a field on a grid writes, for each time, the three electric and three magnetic components as arrays over the three axes, each entry being the field at that grid point and time. Dumping a particle list writes one row per particle with its number, energy and position under the list's name. Any number of list dumps and one field dump, of any number of times, can go to one file.",
  ["inputs"], "all grids (also ones with unequal axes), fields, lists and sequences of dumps",
  "The output test dumps one small field and does not read it back.",
  ["Source/IO/Output/OutputManager.cpp"], ("dumps", "OutputManager::OutEMField/ListProperties"))

p("C23", "Physics tables load as the physical distributions they stand for",
  "The shipped tables load completely: axes strictly increase, every row of the photon energy and pair energy tables is a non-decreasing cumulative distribution from within zero up to one, and all values are finite. Each row is the distribution of quantum synchrotron emission or of pair creation in a strong field at its eta or chi, and the rate tables are their rates. A lookup anywhere in a table yields its value, a photon energy is positive and at most the lepton's energy for any uniform draw, and the energy of each lepton of a pair is at least the rest energy and at most the photon's energy less one rest energy. A missing table ends the program with an error naming it.",
  ["inputs", "configurations"], "all table rows, all eta and chi within the tables and all uniform draws",
  "No test reads more than a few entries of the tables.",
  ["Tables", "Source/Physics/Processes/PhotonEmission.cpp", "Source/Physics/Processes/NonLinearBreitWheeler.cpp"], ("table loading", "PhotonEmission::LoadTables, NonLinearBreitWheeler::LoadTables"), ("tabulated distributions", "Tables/*.table"))

p("C24", "The report of a run shows the settings in use",
  "Every run whose input is accepted writes input-check.txt with one block for the general settings, one for the field if there is one, one for each particle source and histogram in order, and one for the physics. Each value a block shows is the one the simulation uses, in its units, to the six digits shown, and there is no block for anything else: text as written, numbers, vectors component by component, booleans as 0 or 1. An older report is replaced.",
  ["inputs", "configurations"], "all valid input files, however written",
  "No test reads the report.",
  ["Source/IO/Input/FileParser.cpp"], ("report", "FileParser::ReadGeneral/ReadField/ReadParticles/ReadPhysics/ReadHistograms (m_checkFile)"))

p("C25", "Storage is used within bounds, released once, and does not pile up",
  "Every object the program or the module takes from the heap is released at most once and in the form in which it was taken, and nothing is read or written outside an object or after its release, whatever the configuration, number of threads or ranks, or order of calls. What is held when a run ends does not depend on how many events, steps and births it had, and a manager or output file that goes on to the next run or source holds nothing of the ones before. Results never depend on what storage contained before it was first written.",
  ["inputs", "configurations", "histories", "schedules"], "all runs of the program (any sources, outputs, models, histograms, tracks), on any number of threads and ranks, all sequences of runs of a manager and of calls of the output functions",
  "The tests look at values only: a leak, a stale pointer, a read beyond a table or an uninitialised value need not change them, and depend on the history of events and calls.",
  ["Source/Exec/QEDCASC.cpp", "Source/Python/RunManager.cpp", "Source/IO/Output/OutputManager.cpp", "Source/IO/Output/Histogram.cpp", "Source/Particles/ParticleList.cpp", "Source/Physics/Processes/PhotonEmission.cpp", "Source/Physics/Processes/NonLinearBreitWheeler.cpp"],
  ("events and their particles", "SourceGenerator::GenerateList/FreeSources, ParticleList"), ("event buffers and tables", "OutputManager::InitSource/StoreSource, ~OutputManager"), ("a manager's runs", "RunManager::beamOn, ~RunManager"))

p("C26", "A run that ends normally has read all its input and written all its output",
  "When a run ends with status 0, its output file holds exactly what it holds when no file operation fails. An operation on the input file, a data table or the output file that fails, is cut short or is interrupted either leaves that result unchanged or ends the run with a message and a non-zero status. So does a table that ends early, is empty or holds anything but numbers, while a run in which nothing fails ends normally.",
  ["fault_sequences", "inputs", "configurations"], "every single file operation of a run and every way in which it can fail (error, short transfer, interruption, full device), every place at which a table is damaged, for runs with any outputs",
  "The tests never let a file operation fail and never look at a program's exit status after one; which of the hundreds of operations of a run fails is a quantifier over faults.",
  ["Source/IO/Output/HDF5Output.cpp", "Source/IO/Output/OutputManager.cpp", "Source/Physics/Processes/PhotonEmission.cpp", "Source/Physics/Processes/NonLinearBreitWheeler.cpp", "Source/IO/Input/INIReader.cpp", "Source/IO/Input/ini.cpp"],
  ("closing of the output", "HDF5Output::~HDF5Output, AddArray*"), ("reading of tables", "PhotonEmission::LoadTables, NonLinearBreitWheeler::LoadTables"), ("reading of the input", "ini_parse_file, INIReader::INIReader"))

p("C27", "A data file holds what was written to it, across any sequence of openings",
  "A data file opened as new replaces what was there, one opened to be extended keeps what was there, and extending is refused when there is no readable data file. A group that exists may be asked for again; a subgroup, or an array of one, two or three dimensions, is refused with an exception when its place is taken or the group it belongs to is missing. What a call was refused for changes nothing, neither in the file nor in the calls after it, and every array that was accepted is in the file afterwards under its path, with its shape and with every value in its place, and nothing else is.",
  ["histories", "inputs"], "all sequences of openings, groups, subgroups and arrays of any shape, including refused ones, missing files and files that are no data files",
  "No test writes a data file through this interface on its own, opens one twice or has a call refused; what is in a file is a statement about its whole history.",
  ["Source/IO/Output/HDF5Output.cpp", "Source/IO/Output/HDF5Output.hh"],
  ("opening, new or to be extended", "HDF5Output::HDF5Output"), ("groups and subgroups", "HDF5Output::AddGroup, AddSubGroup"), ("arrays", "HDF5Output::AddArray1D, AddArray2D, AddArray3D"))

p("C28", "What a run leaves depends on its input alone, not on what earlier runs left",
  "A run of the program that ends normally leaves its output file and its report of the settings exactly as in an empty directory, whatever was there before: results of larger or smaller runs, what is left of a run that was killed at any moment, or files of any other content. It touches no other file and leaves nothing else behind. A run whose input is invalid leaves the output files as they were, and one that is killed changes nothing but its own output and report.",
  ["histories", "crash_points", "configurations"], "all sequences of runs, refused runs and kills between or within any two file operations, with other content put in place of the files in between",
  "The tests run the program in a directory once each; leftovers show only after particular sequences, such as a large run that is killed while writing and a smaller one after it.",
  ["Source/IO/Output/HDF5Output.cpp", "Source/IO/Output/OutputManager.cpp", "Source/IO/Input/FileParser.cpp", "Source/Exec/QEDCASC.cpp"],
  ("the output is replaced", "HDF5Output::HDF5Output, OutputManager::OutputManager"), ("the report is begun anew", "FileParser::FileParser"), ("settings are checked before the output is opened", "QEDCASC.cpp main"))

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
