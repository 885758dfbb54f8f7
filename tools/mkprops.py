#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one home)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

CM, IO, HPP = "src/conviqt_math.cpp", "src/conviqt_io.cpp", "src/conviqt.hpp"
WIG, FFT = "levels/cxxsupport/wigner.cc", "levels/libfftpack"
MPI = "levels/cxxsupport/mpi_support.cc"
TESTS = ("The shipped tests convolve one fixed 27-sample pointing per rank with one beam and one sky (lmax 32, order 3) "
         "under 1, 2 and 4 ranks and look at three rows; ")

p("C01", "Convolved signal equals the beam-sky convolution at every sample",
  "After a convolution returns success, the signal of every pointing row equals, to the accuracy of the single-precision "
  "expansions, the spherical convolution of the current sky with the current beam at that row's (phi, theta, psi): the band-limited "
  "convolution evaluated on rings spaced pi/(lmax+1) with 2*lmax+1 longitudes and Lagrange-interpolated at the requested order. It is scaled by "
  "2/(1+epsilon) exactly when calibration was requested and the beam is not normalised, intensity-only or with polarisation as the "
  "convolver was configured. It holds for every legal pointing (any phi and psi, theta in [0,pi] including poles, equator and ring "
  "positions), every rank count, thread count and schedule.",
  ["inputs", "schedules", "configurations"],
  "every legal pointing set and its distribution over ranks, lmax, beam mmax, interpolation order, polarisation, calibration, detector epsilon, thread count and interleaving",
  TESTS + "poles, equator, negative or wrapped phi, other orders, other band limits, calibration, normalised beams and uneven distributions are never compared with an independent value.",
  [CM, HPP, WIG, "levels/libfftpack/ls_fft.c", "levels/libfftpack/bluestein.c", "levels/libfftpack/fftpack.c"],
  [("data cube construction", CM + ": convolver::conviqt_hemiscm, conviqt_hemiscm_pol, todAnnulus"),
   ("grid interpolation", CM + ": convolver::conviqt_tod_loop, weight_ncm"),
   ("calibration", CM + ": convolver::convolve")],
  observe=["signal column of the pointing array after convolve()"])

p("C02", "Pointing rows come back complete, in place and unaltered",
  "After a convolution returns success every rank has exactly the rows it passed in, in the same order, with phi, theta and psi "
  "bit-identical to what it passed. The time column holds the running row index across the ranks of the communicator. No row is lost, duplicated, "
  "reordered or attributed to another rank, whatever the ranks' row counts (including zero), duplicates and ties.",
  ["inputs", "schedules", "configurations"],
  "every distribution of rows over ranks (empty ranks, one rank with everything, ties in colatitude, all rows in one hemisphere), rank counts and message schedules",
  TESTS + "angles after the call are not compared, every rank always has the same non-empty rows and no ties cross ranks.",
  [CM, "src/conviqt_util.cpp", MPI],
  [("forward redistribution", CM + ": distribute_colatitudes, fillingBetaSeg, todRedistribution5cm"),
   ("row bookkeeping through the signal column and the way back", CM + ": convolver::convolve, todgen"),
   ("sort by colatitude", "src/conviqt_util.cpp: hpsort_arrTheta")],
  state=[("pntarr", "5 columns per row: phi, theta, psi, signal, time", HPP)],
  observe=["pointing array after convolve()"])

p("C03", "A sample's result does not depend on how the samples are distributed",
  "The convolved value of a sample depends only on that sample, the sky, the beam, the detector and the convolver configuration. Moving samples to other "
  "ranks, changing the number of ranks, permuting, duplicating, adding or removing other samples changes no other sample's value beyond double-precision rounding.",
  ["inputs", "schedules", "configurations"],
  "every pair of distributions of the same samples over 1..12 ranks, in every order, with and without extra samples, under any schedule",
  "The tests run the same samples at 1, 2 and 4 ranks but compare only three fixed rows with loose constants; no pair of distributions is compared.",
  [CM],
  [("latitude ownership", CM + ": distribute_colatitudes, get_latitude_tables"),
   ("data cube exchange", CM + ": alltoall_datacube"),
   ("ring ranges", CM + ": itheta0SetUp, beta_to_itheta")],
  observe=["signal column of matched samples in differently distributed runs"])

p("C04", "Collective calls complete on every rank under every schedule",
  "Reading a beam or sky, building a convolver and convolving all complete on every rank of the communicator, for every rank count and every row "
  "distribution including ranks without rows, whatever the relative speed of the ranks and however little the MPI library buffers. All ranks issue matching "
  "communication (same operation, root, type and sizes, in the same order) with no rank left waiting and no message left undelivered.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of ranks, eager or synchronising completion of each collective, stalled ranks, empty ranks, verbosity levels",
  "The tests use non-empty identical ranks and whatever schedule Open MPI happens to produce on one idle machine; a hang depends on rank-local counts.",
  [CM, IO, MPI],
  [("collective sequence of convolve", CM + ": convolver::convolve, interpolTOD, report_timing"),
   ("read broadcasts", IO + ": beam::read, sky::read"),
   ("thin MPI layer", MPI)],
  observe=["sequence of communication operations issued per rank and communicator"])

p("C05", "Results do not depend on the OpenMP thread count or interleaving",
  "For the same inputs the convolved values are the same (to double-precision rounding) for every number of OpenMP threads and every interleaving of them. Inside a parallel "
  "region no two threads access the same memory, at least one of them writing, without synchronisation between them.",
  ["schedules", "configurations"],
  "1 to 8 threads per rank (also fewer than requested, also different between ranks), preemption at any memory access inside parallel regions, any order of thread start and finish",
  "The tests run with two real threads whose interleaving is never controlled; a race that needs a particular preemption is not sampled.",
  [CM, WIG, "levels/libfftpack/ls_fft.c"],
  [("parallel regions", CM + ": conviqt_hemiscm, conviqt_hemiscm_pol, todAnnulus, conviqt_tod_loop"),
   ("per-thread Wigner generator and FFT plan", WIG + ": wignergen::calc, wignergen::prepare")],
  observe=["signal column", "memory accesses between synchronisation points"])

p("C06", "All communication stays on the communicator the caller passed",
  "Every operation communicates only on the communicator it was given, so that disjoint groups can read, convolve and time different workloads at the same time, a rank "
  "can work alone while others do nothing, and several communicators over the same ranks can be used in turn. Each group obtains what it would obtain alone, and the "
  "running index counts the rows of that communicator only.",
  ["schedules", "configurations", "histories"],
  "splits of the world into groups, duplicated and reordered communicators, single-rank communicators, groups using different files, bands, orders and verbosity concurrently",
  "One test splits the world but only prints differences; nothing checks that ranks outside the communicator are not needed or that concurrent groups do not interact.",
  [CM, IO, MPI, HPP],
  [("communicator carried by the MPI manager", MPI + ": MPI_Manager::MPI_Manager"),
   ("direct MPI calls", CM + ": get_latitude_tables, alltoall_datacube, convolve")],
  observe=["communicator of each communication operation", "results per group"])

p("C07", "A successful read gives every rank exactly the file's expansion",
  "When reading a beam or sky returns success, every rank of the communicator holds bit-identical expansion coefficients, equal to those stored in the "
  "file for every l and m within the requested limits (sky coefficients deconvolved with the requested Gaussian) and zero where the file stores none. Limits not "
  "requested are those the file provides. It holds whatever the order of the rows in the file, the rank count, the schedule, and however the storage splits the transfers.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "files with any lmax/mmax, coefficient order, gaps and column type, requested and automatic limits, polarised or not, deconvolution width, short and interrupted reads, repeated reads into the same object",
  "The tests read two fixed files with fixed limits and never look at a coefficient, on rank 0 or elsewhere.",
  [IO, "levels/Healpix_cxx/alm_fitsio.cc", "levels/Healpix_cxx/alm_powspec_tools.cc", "levels/cxxsupport/fitshandle.cc", "levels/Healpix_cxx/ls_alm.h"],
  [("size determination and broadcast", IO + ": beam::read, sky::read"),
   ("coefficient placement", "levels/Healpix_cxx/alm_fitsio.cc: read_Alm_from_fits, get_almsize"),
   ("deconvolution", "levels/Healpix_cxx/alm_powspec_tools.cc: smoothWithGauss")],
  observe=["blmT/blmG/blmC, slmT/slmG/slmC, get_lmax, get_mmax on every rank"])

p("C08", "A failed read is reported on every rank and corrupts nothing",
  "If the beam or sky file cannot be opened or read completely (missing, unreadable, I/O error, truncated, not the expected table, or too small an "
  "expansion for the request), the read reports failure on every rank of the communicator. No rank hangs, terminates or reports success. "
  "After the fault is gone the same object can be read again and then holds the file's expansion.",
  ["fault_sequences", "schedules", "inputs"],
  "a fault at any storage operation of the read (open, size query, any header or data block), truncation at any byte, every rank count and schedule, followed by retries",
  "No test reads a file that fails.",
  [IO, "levels/cxxsupport/fitshandle.cc", "levels/Healpix_cxx/alm_fitsio.cc"],
  [("read and broadcast", IO + ": beam::read, sky::read"),
   ("status check after each cfitsio call", "levels/cxxsupport/fitshandle.cc: check_errors")],
  observe=["outcome of read() on every rank", "state after a retry"])

p("C09", "An illegal request is refused on every rank and harms nothing",
  "A pointing with a colatitude outside [0,pi] or an angle that is not a finite number on any one rank makes the convolution report failure on every rank, and limits that exceed the "
  "expansions of the current sky or beam, or polarisation asked of unpolarised expansions, are refused when the convolver is built or used. A refused call leaves no rank waiting and leaves the "
  "angles and row count of the pointing as they were, and a following legal call on the same objects succeeds with the right values.",
  ["inputs", "schedules", "histories"],
  "the offending row at any position of any rank, slightly or grossly out of range, NaN or infinite, combined with any distribution and schedule; oversized limits at construction or after replacing sky or beam",
  "No test passes an illegal pointing or limit.",
  [CM],
  [("angle check", CM + ": convolver::convolve"),
   ("limit checks", CM + ": convolver::convolver")],
  observe=["outcome of convolve() and of the constructor on every rank"])

p("C10", "The C interface turns every failure into an error value",
  "No call of the C interface lets an exception escape or terminates the process: a failing operation (unreadable file, illegal pointing, limits beyond the expansions, "
  "memory exhaustion, MPI error) returns nonzero or a null handle and a succeeding one returns zero or a valid handle. The "
  "results through the C interface equal those of the C++ interface, and handles stay usable after a failure.",
  ["fault_sequences", "inputs", "histories"],
  "sequences of C calls with storage faults, allocation failures outside parallel regions, illegal pointings and limits at arbitrary points",
  "The C test only follows the success path.",
  ["src/cconviqt.cpp", "src/cconviqt.h"],
  [("try/catch in each wrapper", "src/cconviqt.cpp")],
  observe=["return values of the conviqt_* functions"])

p("C11", "Running out of memory never yields a wrong result",
  "If an allocation fails anywhere in a read or convolution, the call reports the failure or the process stops: it never returns success with values "
  "other than the correct ones and never corrupts memory. When the failure was reported and memory is available again, repeating the operation on the same objects succeeds "
  "with the right values, given the pointing is supplied again.",
  ["fault_sequences", "schedules"],
  "the failing allocation at any point (each allocation of the run in turn over many seeds), once or persistently, on any rank, in any thread",
  "No test makes an allocation fail.",
  [CM, IO, "levels/cxxsupport/ls_arr.h", "levels/cxxsupport/ls_alloc_utils.h", "levels/c_utils/c_utils.c", "levels/libfftpack/ls_fft.c"],
  [("RAII arrays", "levels/cxxsupport/ls_arr.h"),
   ("rethrow after reporting", CM + ": catch (std::bad_alloc)"),
   ("checked C allocation", "levels/c_utils/c_utils.c: util_malloc_")],
  observe=["outcome of the call on the rank whose allocation failed", "pointing and objects afterwards"])

p("C12", "An MPI failure is never mistaken for success",
  "When an MPI operation returns an error to a rank (the communicator's error handler being set to return errors), the library call that issued it reports failure on that rank. It does not return success with results computed from data that never arrived.",
  ["fault_sequences", "schedules"],
  "an error return from any one MPI communication call of a read or convolution, on any rank, any schedule",
  "MPI never fails in the tests.",
  [MPI, CM, IO],
  [("return codes of direct MPI calls", CM + ": get_latitude_tables, alltoall_datacube, convolve"),
   ("MPI wrapper layer", MPI)],
  observe=["outcome of read()/convolve() on the rank that got the error"])

p("C13", "No operation touches memory outside live objects",
  "No operation accepted by the library reads or writes outside the bounds of a live allocation or uses memory after it was freed. It holds for every legal pointing, every band limit, every beam "
  "azimuthal limit and interpolation order (including orders exceeding the grid), every rank count including ranks with no samples or no latitudes, and after failed calls.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all accepted combinations of lmax, beam mmax, order, rows and ranks, boundary colatitudes (0, pi/2, pi and bin edges), more ranks than latitudes or samples, and failed reads or refused calls in between",
  "The tests use one configuration whose sizes never reach a boundary and run without memory checking.",
  [CM, "src/conviqt_util.cpp", "levels/cxxsupport/ls_arr.h", WIG, "levels/libfftpack/bluestein.c", "levels/libfftpack/ls_fft.c"],
  [("index arithmetic", CM + ": distribute_colatitudes, beta_to_itheta, conviqt_tod_loop, todAnnulus"),
   ("sorting", "src/conviqt_util.cpp")],
  observe=["every memory access of the library"])

p("C14", "Results do not depend on clocks, stale memory or verbosity",
  "The outcome of every operation and every value it delivers are bit-identical whatever the wall clock does (skew between ranks, jumps forward or backward), whatever "
  "fresh memory happens to contain, and at every verbosity level. No value is derived from uninitialised memory.",
  ["configurations", "schedules", "fault_sequences"],
  "pairs of runs of one scenario under one schedule with different clock behaviour, fresh-memory contents or verbosity",
  "Tests run once on one machine with near-zero fresh memory and one verbosity.",
  [CM, HPP, IO, "levels/cxxsupport/ls_arr.h", WIG],
  [("timers used for reporting only", CM + ": report_timing, mpiMgr.Wtime calls"),
   ("explicit fill after alloc", CM),
   ("member initialisation", HPP)],
  observe=["pointing array and coefficients after each operation, compared bitwise"])

p("C15", "Each operation depends only on the current inputs, not on the history",
  "Any sequence of convolutions, replaced or re-read skies and beams, changed detector efficiencies, beam normalisations and monopole or dipole removals gives, at each convolution, what "
  "freshly built objects in the same logical state would give. Normalising scales a beam to unit integral once and is idempotent until the beam is read again, removing a monopole or dipole "
  "zeroes exactly those temperature coefficients, and a fresh detector has epsilon zero.",
  ["histories", "schedules", "configurations"],
  "sequences of up to 12 operations over several skies, beams, detectors and convolvers with varying pointing, on several ranks under any schedule",
  "Tests call convolve a few times with the same objects and never modify them in between.",
  [CM, IO, HPP, "src/cconviqt.cpp"],
  [("object state", HPP + ": beam, sky, detector, convolver members"),
   ("interpolation weight cache", CM + ": weight_ncm_initialize")],
  observe=["values of each convolve in the sequence", "return value of normalize()"])

p("C17", "The message-passing layer delivers exactly what was sent",
  "Each operation of the library's MPI layer (point-to-point send/receive and exchange, broadcast, reductions, gathers with equal or varying sizes, all-to-all with equal or varying sizes including empty ones) delivers on "
  "every participating rank exactly what its documentation says, for every supported type, size, root and rank count, under every schedule and with any amount of buffering.",
  ["schedules", "inputs", "configurations"],
  "random sequences of layer operations agreed by all ranks, 1 to 8 ranks, sizes 0 to 64, all supported element types and operators, all roots",
  "Only the few operations convolve uses are ever exercised, always with non-empty data.",
  [MPI, "levels/cxxsupport/ls_mpi_support.h"],
  [("MPI_Manager", MPI)],
  observe=["receive buffers on every rank"])

p("C18", "Rotating an expansion gives the same correct result under any threading",
  "Rotating spherical harmonic coefficients by Euler angles or a rotation matrix gives the mathematically rotated expansion, for intensity and polarisation alike, identically for every number and interleaving of OpenMP threads. "
  "The OpenMP and serial variants of the underlying rotation-matrix recursion agree.",
  ["schedules", "inputs", "configurations"],
  "1 to 8 threads, any preemption, random expansions with lmax up to 24 and random angles",
  "No test calls the rotation code.",
  ["levels/Healpix_cxx/alm_powspec_tools.cc", WIG, "levels/cxxsupport/ls_wigner.h", "levels/cxxsupport/rotmatrix.cc"],
  [("rotate_alm", "levels/Healpix_cxx/alm_powspec_tools.cc"),
   ("wigner_d_risbo_openmp, wigner_d_halfpi_risbo_openmp", WIG)],
  observe=["rotated coefficients"])

p("C19", "A reported-successful expansion write is readable back exactly",
  "When writing spherical harmonic coefficients to a file and closing it reports success, reading the file gives back the same coefficients, for every layout. If the storage fails at any point of the write or the close (full disk, I/O error), "
  "the failure is reported, and the process is neither terminated nor told it succeeded.",
  ["fault_sequences", "inputs"],
  "storage faults at any write, flush or close of the file, any lmax/mmax/precision, polarised or not, compressed or full layout",
  "No test writes a file.",
  ["levels/Healpix_cxx/alm_fitsio.cc", "levels/cxxsupport/fitshandle.cc"],
  [("write_Alm_to_fits", "levels/Healpix_cxx/alm_fitsio.cc"),
   ("fitshandle close and error check", "levels/cxxsupport/fitshandle.cc: clean_all, check_errors")],
  observe=["durable content of the simulated disk", "outcome of write and close"])

p("C20", "Operations release the files and memory they acquire",
  "Once an operation has returned, by success or by reported failure, no file it opened stays open. Once the user's objects are destroyed no memory the library allocated for them "
  "stays allocated, so that any number of reads, failed reads and convolutions can be repeated in one process.",
  ["histories", "fault_sequences", "schedules"],
  "sequences of reads, failed reads (fault at any storage operation), convolutions and refused convolutions, C++ and C interface",
  "Tests run each operation a handful of times and never look at open files or live memory.",
  [IO, CM, "levels/cxxsupport/fitshandle.cc", "levels/cxxsupport/ls_arr.h", "levels/libfftpack/ls_fft.c", "levels/libfftpack/bluestein.c", "src/cconviqt.cpp"],
  [("RAII handles and arrays", "levels/cxxsupport/fitshandle.cc: ~fitshandle; levels/cxxsupport/ls_arr.h")],
  observe=["open files of the simulated disk", "live allocations after destruction"])

p("C22", "What the FITS layer reports as written is read back unaltered",
  "Whatever a program writes through the library's FITS layer (fitshandle) and then closes without an error is there when the file is opened again: tables with their column names, units, types, "
  "repetition counts and number of rows, every element of numeric, boolean and string columns (written and read in any pieces at any offsets and through any memory type that holds the "
  "values), images of one to three dimensions, and header keys (current value, absence after deletion), in the order of the HDUs, which may have been inserted anywhere. While writing, the handle "
  "reports the same structure. Requests that make no sense (columns, elements, HDUs, keys or files that are not there, images used as tables) are refused. A storage error while writing or "
  "reading is reported instead of yielding other data.",
  ["inputs", "fault_sequences", "histories"],
  "every table and image layout, order of insertion, splitting of columns and images into pieces, header contents, and storage fault (open, read, write, seek, close, truncation, full disk) at any call",
  "No test calls the FITS layer directly; through the expansion reader they touch one table layout with one element per row, always without faults.",
  ["levels/cxxsupport/fitshandle.cc", "levels/cxxsupport/ls_fitshandle.h"],
  [("element addressing of columns", "levels/cxxsupport/fitshandle.cc: read_col, write_col"),
   ("structure of the current HDU", "levels/cxxsupport/fitshandle.cc: init_data, insert_bintab, insert_image, goto_hdu"),
   ("error reporting", "levels/cxxsupport/fitshandle.cc: check_errors, clean_all")],
  state=[("columns_, nrows_, axes_", "structure of the current HDU as the handle reports it", "levels/cxxsupport/ls_fitshandle.h")],
  observe=["values and structure returned by a second fitshandle opened on the simulated disk"])

p("C16", "The Python interface relays results and failures faithfully",
  "Through the Python interface the same inputs give the same results as through C++, on every rank including ranks without samples, and every failure (unreadable file, illegal limits, illegal pointing, no memory, MPI error) "
  "raises a Python exception instead of returning normally or crashing. A convolver stays usable while the program holds it, whether or not the program still holds the sky, beam and detector it was built from.",
  ["inputs", "fault_sequences", "histories"],
  "sequences of Python calls on any ranks with failing reads, limits, pointings, allocations and MPI calls, and any order of dropping references",
  "The one Python test runs a fixed successful program; no call in it fails and no object is dropped early.",
  ["python/libconviqt_wrapper/__init__.py", "src/cconviqt.cpp"],
  [("ctypes return value checks", "python/libconviqt_wrapper/__init__.py"),
   ("object lifetime", "python/libconviqt_wrapper/__init__.py: Convolver, __del__")],
  observe=["Python exceptions and array contents"])

p("C21", "The FFT kernels invert each other for every length",
  "For every length the forward followed by the backward real or complex transform returns the input times the length, to rounding, whichever algorithm the length selects.",
  ["inputs"], "every transform length and input vector",
  "ffttest.c is not part of the suite.",
  ["levels/libfftpack/ls_fft.c", "levels/libfftpack/bluestein.c", "levels/libfftpack/fftpack.c"],
  [("plan selection", "levels/libfftpack/ls_fft.c: make_complex_plan")])

P.sort(key=lambda d: d["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
