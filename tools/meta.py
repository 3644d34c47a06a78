#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development tool, no check runs it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POLY, STAT = "geec/polyhedron.py", "geec/station.py"
TESTS = "The tests evaluate one unit cube at a handful of stations"


def m(*xs):
    return [dict(name=a, where=b) for a, b in xs]


def st(*xs):
    return [dict(name=a, meaning=b, where=c) for a, b, c in xs]


PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note=None, claimed=True, reason=None, observe=()):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                       why_tests_cant=why, anchors=dict(files=files, mechanism=m(*mech), state=st(*state),
                                                         observe_at=list(observe), hook_needed=None)),
                  note, claimed, reason))


GRAPH = ("Decided on the value graph of the real entry points, built by abstract interpretation of the source: equality of "
         "graphs by random interpretation over a 61-bit prime field (error probability below 1e-15 per draw), in every "
         "gate configuration drawn (general position, station in a face's plane, on an edge's line either side; something parallel "
         "to an axis or coordinate plane, station or corner at the origin). ")
TRUST = ("Trusts the models of numpy/scipy functions; real arithmetic, not rounding; tetrahedra and six-faced bodies (with coplanar "
         "facets and an interior point) stand for all (the graph is per face and uniform in the number of faces); stations on an edge or corner excluded.")

prop("C01", "Gravity is linear in density and gravitational constant",
     "For any convex body and any station off its edges and corners, multiplying the density or the gravitational constant "
     "by a factor multiplies every gravity and gradient component by exactly that factor. Only the product of the two "
     "matters, and zero density gives exactly zero.",
     ["inputs"], "all bodies, stations, densities, constants, with and without gradient",
     TESTS + " with one density; none varies density or constant over all branches of the formula.",
     [POLY], [("single multiplicative factor applied per face", POLY + ":Face.get_gravity")],
     note=GRAPH + TRUST)
prop("C02", "Moving body and station together changes nothing",
     "For any convex body and station, translating both by the same vector leaves all gravity and gradient components "
     "unchanged. The result depends on the coordinates only through differences to the station.",
     ["inputs"], "all bodies, stations and translation vectors",
     TESTS + " around the origin; a use of an absolute coordinate can hide behind zeros.",
     [POLY], [("coordinates are taken relative to the station", POLY + ":Face._get_dot_point1, _get_omega, Edge line integrals")],
     note=GRAPH + TRUST)
prop("C03", "Scaling all lengths scales gravity and keeps the gradient",
     "For any convex body and station, multiplying all coordinates by a positive factor multiplies the gravity components "
     "by that factor and leaves the gradient components unchanged.",
     ["inputs"], "all bodies, stations and positive factors",
     TESTS + " of unit size, so a missing or extra power of a length is invisible.",
     [POLY], [("dimensionally homogeneous closed form", POLY + ":Face.get_gravity")], note=GRAPH + TRUST)
prop("C04", "An evaluation leaves no trace in later evaluations",
     "The gravity and gradient a body produces at a station depend only on the arguments of that evaluation, never on "
     "which stations, densities or options the same body was evaluated with before, including an evaluation that failed "
     "part-way. Results handed out earlier are not changed by later evaluations.",
     ["histories", "fault_sequences"], "all sequences of evaluations of one body, including one interrupted by an exception "
     "at any point of its work",
     "Tests build a new body for nearly every evaluation and never evaluate after a failure.",
     [POLY], [("per-evaluation values are cleared when an evaluation ends, normally or not", POLY + ":Polyhedron.get_gravity, reset"),
              ("per-evaluation values start as unset", POLY + ":Face.reset, Edge.reset")],
     [("cached edge integrals", "integral along an edge, shared with the neighbouring face", POLY + ":Edge"),
      ("cached face values", "distance, sign, solid angle and line integrals of the current station", POLY + ":Face")],
     note=GRAPH + "The later call's graph, built on the state the earlier call leaves (any prefix of its work when it "
     "failed), is compared with the graph on a fresh body. Histories of two calls per switch setting; state after a completed call is the state before it, so longer ones follow. " + TRUST)
prop("C05", "Fields of several bodies add up",
     "The gravity and gradient at a station after computing a set of bodies are the sum of what each body produces alone "
     "with the density and constant given, whatever their number and order, whether given one by one or in a list. "
     "Different stations never influence each other, and a new station starts from zero.",
     ["inputs", "histories"], "all lists of bodies, orders, groupings into calls, and several stations",
     "Tests only ever compute one body per station.",
     [STAT], [("accumulation into the station's own vectors", STAT + ":Station.compute_gravity")],
     [("G, T", "accumulated gravity vector and gradient tensor", STAT + ":Station")],
     note="Value graph of the station's entry point with each body's field an uninterpreted function of body, station, "
     "density, constant and switch; lists of 0, 1, 2, 3 bodies and of symbolic length; exact on the model.")
prop("C06", "Inputs and geometry are never modified by a computation",
     "Building a body, building a station and computing gravity never write into the arrays or lists the caller passed in. "
     "Evaluating a body leaves its vertices, face corners and normals as they were.",
     ["inputs", "histories"], "all bodies, stations and both gradient settings, on every path",
     "Tests reuse no array after a call and never compare inputs before and after.",
     [POLY, STAT], [("differences are formed in new arrays", POLY + ":Face, Edge"), ("hull arrays are copied by indexing", POLY + ":Polyhedron._get_faces")],
     note="Effect analysis: every array store in the analysed program is resolved to the memory it reaches (views followed); a store "
     "into caller memory on a feasible path is reported; geometry graphs before and after compared.")
prop("C07", "The gradient switch affects the gradient only",
     "Gravity is the same whether or not the gradient is requested. The gradient is all zeros when not requested and a symmetric tensor when it is, "
     "and it is not requested unless asked for.",
     ["inputs", "configurations"], "all bodies and stations, both switch settings",
     TESTS + "; gravity with and without gradient is not compared over all branches.",
     [POLY], [("one code path for gravity", POLY + ":Face.get_gravity"), ("reused tensor components", POLY + ":Face.get_gravity")],
     note=GRAPH + TRUST)
prop("C08", "Faces point outwards however the corners are listed",
     "Every face of a body carries the unit normal pointing out of the body and lists its corners counterclockwise seen "
     "from outside, and the corners are those of one facet of the convex hull. The field does not depend on the order in which corners are given.",
     ["inputs"], "all convex bodies, orders of their points and of the hull's facet corners",
     TESTS + " whose corner order is fixed.",
     [POLY], [("orientation test against an interior point", POLY + ":Polyhedron._get_faces")],
     [("un, points", "outward unit normal and corners of a face", POLY + ":Face")], note=GRAPH + TRUST)
prop("C09", "Sharing work between neighbouring faces is invisible",
     "Reusing what was computed along an edge for the neighbouring face gives the same gravity and gradient as computing "
     "every face on its own. The order in which faces are handled does not matter.",
     ["inputs", "histories"], "all bodies, stations and orders of faces",
     TESTS + ", with one face order, and never compares with sharing disabled.",
     [POLY], [("the neighbour receives the negated integral", POLY + ":Edge._set_twin_pqr"), ("edges are paired by equal end points", POLY + ":Polyhedron._get_edge_twin")],
     note=GRAPH + "The graph is evaluated face after face, delivering recorded stores, in several orders and without delivery. " + TRUST)
prop("C10", "Rotating or mirroring the scene rotates or mirrors the field",
     "Applying any rotation, axis exchange or mirroring to body and station applies the same map to the gravity vector and the corresponding "
     "tensor transformation to the gradient. No axis is treated specially.",
     ["inputs"], "all bodies, stations and orthogonal maps",
     TESTS + " aligned with the axes, where many components vanish or coincide.",
     [POLY], [("vector formulas without preferred axes", POLY + ":Face.get_gravity, utils.cross_product")], note=GRAPH + TRUST)
prop("C11", "The gradient is the derivative of the gravity",
     "Each gradient component is the rate of change of the corresponding gravity component with the station's position, "
     "converted from mGal per metre to Eotvos (a factor ten thousand).",
     ["inputs"], "all bodies and stations in general position, all nine components",
     "Tests compare a few components at a few points with stored numbers.",
     [POLY], [("analytic derivatives carried along", POLY + ":Face, Edge")],
     note=GRAPH + "The gravity graph is differentiated symbolically node by node and compared with the gradient graph. " + TRUST)
prop("C12", "The field is the closed-form field of the body, in mGal and E",
     "For every convex body and every station off its edges and corners, inside, outside, in the plane of a face or on the line of an edge, "
     "gravity (mGal) and gradient (Eotvos) equal the closed-form attraction of the uniform solid with the given density and constant.",
     ["inputs"], "all bodies and stations off edges and corners, every branch of the formula",
     TESTS + "; branches for stations in a face's plane or on an edge's line get at most one point.",
     [POLY], [("solid angle and line integrals per face", POLY + ":Face._get_omega, Edge._get_ccw_line_integrals")],
     note=GRAPH + "Compared with the closed form written independently in the checker. " + TRUST)

CRSF, DSF, CFGF, MASF, OBSF, CLIF, APIF = ("geec/crs.py", "geec/dataset.py", "geec/config.py", "geec/mass.py", "geec/observer.py",
                                           "geec/cli.py", "geec/api.py")
NOTEST = "No test exercises this module"
FRAME = ("Decided on the value and effect graph of the real entry points for a point set of unknown size and unknown coordinates; "
         "the conversions of pymap3d and the geoid lookups of pygeodesy are uninterpreted functions (their own accuracy is trusted), "
         "related only by being inverse pairs. Every frame, ellipsoid choice and datum is enumerated. ")
CONFN = ("Decided on the graph of the real entry points over a model of confuse's layered sources, with symbolic numbers and point lists; "
         "option names enumerated. Trusts the models of confuse, pandas and pathlib. ")

prop("C13", "Conversions use the data's own ellipsoid and origin",
     "Converting any point set to earth-centred, WGS84 or local coordinates gives the point's position in that frame, computed with the "
     "ellipsoid and local origin its record names, with longitude, latitude and height (or east, north, up) each in their own place "
     "(and under their own names lon, lat, alt).",
     ["inputs"], "all points, frames (Cartesian, earth-centred, ellipsoidal, local), ellipsoids and origins",
     NOTEST + ", and swapped arguments or a default ellipsoid give plausible numbers.", [CRSF, DSF],
     [("conversion per frame", CRSF + ":ellps_to_ecef, enu_to_ecef, ecef_to_wgs84, ecef_to_enu, wgs84_to_enu"), ("dispatch on the frame", DSF + ":Dataset.to_ecef, to_wgs84, to_enu")],
     [("crs", "frame, ellipsoid, origin and datum of the coordinates", CRSF + ":CRS")], note=FRAME)
prop("C14", "Every operation works on every frame and every holder",
     "Each of the five operations (wrap longitudes, correct heights, convert to earth-centred, WGS84, local) works on data in each frame "
     "without error, gives the same through a body, a list of bodies or the observers as on the data itself, and never changes Cartesian data.",
     ["inputs"], "all frames, ellipsoids, operations and holders", NOTEST + ".", [DSF, MASF, OBSF],
     [("one table entry per frame", DSF + ":Dataset"), ("delegation", MASF + ":Mass, to_*; " + OBSF + ":Observer")], note=FRAME)
prop("C15", "The reference ellipsoid is the one asked for",
     "An ellipsoid named in the library's table has that entry's axes; without a name, two given axes are used as given; with nothing or only "
     "one axis given it is WGS84. A name takes precedence over axes.",
     ["inputs"], "all names of the library's table, all axes, all combinations of given and missing", NOTEST + ".", [CRSF],
     [("selection of the axes", CRSF + ":Ellipsoid.__init__")], note=FRAME)
prop("C16", "Heights are corrected by the right geoid exactly once",
     "Correcting heights of ellipsoidal data adds to each point's height the geoid height of the record's vertical datum at that point's own "
     "latitude and longitude and nothing else; with the ellipsoid as datum nothing changes. Afterwards the record says heights are "
     "ellipsoidal, so a second correction changes nothing. Data in other frames are untouched.",
     ["inputs", "histories"], "all points, datums, frames, and repeated corrections", NOTEST + ".", [CRSF, DSF],
     [("geoid height added", CRSF + ":ellipsoid_height"), ("datum table", CRSF + ":VDATUMREF")],
     [("vdatum", "what the heights are measured from", CRSF + ":CRS.vdatum")], note=FRAME)
prop("C17", "Longitude wrapping changes only longitudes above 180",
     "Wrapping subtracts 360 from longitudes greater than 180 and leaves every other longitude, every latitude and every height as it is. It "
     "does nothing to data that are not longitudes (Cartesian, earth-centred or local metres).",
     ["inputs"], "all points and frames, including longitudes of exactly 180", NOTEST + ".", [CRSF, DSF], [("wrap", CRSF + ":wrap180")], note=FRAME)
prop("C18", "The record always names the frame the coordinates are in",
     "After any sequence of conversions the record names the frame, ellipsoid and origin the coordinates are really in, so that further "
     "conversions end at the same position in space. A record whose local frame and ellipsoid contradict each other is refused.",
     ["histories"], "all sequences of conversions (up to three) from every frame", NOTEST + "; no test chains conversions.", [CRSF, DSF],
     [("record updated with the coordinates", CRSF + ":*_to_*"), ("consistency check", CRSF + ":CRS.__post_init__")],
     [("name, ellps, enu", "frame, ellipsoid, origin", CRSF + ":CRS")], note=FRAME)
prop("C19", "The given configuration file overrides the user's, which overrides the defaults",
     "Every option takes its value from the file named on the command line if that file sets it, else from the user's own file, else from the "
     "package defaults, key by key. Without a file on the command line only the last two count. The bodies are those listed by the "
     "highest-priority file that lists any.",
     ["configurations"], "all options and all combinations of files setting them", NOTEST + ".", [CFGF],
     [("sources stacked in order of priority", CFGF + ":setup, _default_setup")], note=CONFN)
prop("C20", "Documented options are accepted, defaulted and checked",
     "Every documented reference, vertical datum and ellipsoid name is accepted (references and datums in any letter case) and selects that "
     "choice. A missing or empty one means the documented default. Any other name is refused with a configuration value error, and a local frame without a "
     "complete origin is an error.",
     ["configurations"], "all documented names, letter cases, missing and empty values, for bodies and observers", NOTEST + ".", [CRSF],
     [("reading of the options", CRSF + ":get_crs, read_ref, read_vdatum, read_ellipsoid_parameters, read_enu_parameters")], note=CONFN)
prop("C21", "Coordinates come from points, else the file, else the grid",
     "Bodies and observers get exactly the listed points if any are listed, else the rows of the comma-separated header-less file, else "
     "all grid points from start in steps to before the end on each axis; always as floating-point numbers. A missing file raises "
     "FileNotFoundError, no source at all TypeError.",
     ["inputs", "configurations"], "all point lists, files, grids and combinations of given, empty and missing sources", NOTEST + ".", [DSF],
     [("choice of the source", DSF + ":_read_coords, get_dataset")], note=CONFN + "Grids: any start and step symbolically, four concrete grids for the count.")
prop("C22", "The shipped configuration files and documented keys are enough to run",
     "With each configuration file shipped in the package, alone or over the defaults, and with any file holding just the documented keys, "
     "the program finds every value it reads: no missing-key or type error in printing the configuration or in building bodies and observers. "
     "The template's own values are used.",
     ["configurations"], "the shipped files, and documented keys in every frame", NOTEST + ".", [CFGF, "geec/cfg/config_default.yaml", "geec/cfg/config_template.yaml"],
     [("keys read", CFGF + ":show; " + MASF + ":get_masses; " + OBSF + ":get_observer")], note=CONFN + "The YAML files are parsed, not executed.")
prop("C23", "A run weighs each body with its own density and constant",
     "The fields a run writes are the sum over all configured bodies of each body's field at the point, computed with that body's own points, "
     "density and gravitational constant, with or without gradient.",
     ["inputs", "configurations"], "any number of bodies with any densities and constants", NOTEST + ".", [CLIF, MASF],
     [("bodies paired with their parameters", CLIF + ":run")], note=CONFN + "One to three bodies and a symbolic number; a body's field is uninterpreted (C01-C12).")
prop("C24", "A run compares bodies and observers in one frame",
     "In a run, body points get longitudes wrapped and heights corrected by their datum's geoid before they are converted to earth-centred "
     "coordinates, and fields are computed at the earth-centred position of each observation point; Cartesian data are used as given.",
     ["inputs", "configurations"], "all frames, ellipsoids, origins and datums of bodies and observers", NOTEST + ".", [CLIF, MASF, OBSF],
     [("order of the conversions", CLIF + ":run")], note=FRAME + CONFN)
prop("C25", "A run writes one complete, correctly labelled table",
     "A run writes exactly one file: the output path with suffix .csv, its missing directories created, comma-separated with header, no row "
     "numbers, full precision. It has one row per observation point in order: WGS84 longitude, latitude, height (or the Cartesian coordinates), then Gx Gy Gz in mGal "
     "and txx txy txz tyy tyz tzz in E, each under its own name and unit. An empty output path writes nothing.",
     ["inputs", "configurations"], "all observers, frames and output paths", NOTEST + ".", [CLIF, APIF, OBSF],
     [("assembly of the table", CLIF + ":run"), ("writing", APIF + ":write_file"), ("labels", OBSF + ":Observer.__post_init__")], note=CONFN)
prop("C26", "The config command writes the packaged template and nothing else",
     "The config command writes the content of the package's configuration template, unchanged, to the asked path with suffix .yaml (or "
     "config_template.yaml in the current directory), and writes no other file.",
     ["configurations"], "output paths with and without suffix, relative, absolute, with ~, and none", NOTEST + ".", [CLIF],
     [("copy", CLIF + ":config")], note=CONFN)
prop("C27", "A failed run reports failure and writes no result",
     "If any step of a run fails (reading a configuration or point file, an invalid or incomplete option, computing a field, creating the "
     "directory or writing), the run ends with an error and no result file is written before the failure. Nothing fails otherwise.",
     ["fault_sequences", "configurations"], "a failure at each step that can fail, and each kind of invalid option", NOTEST + " and none makes a step fail.",
     [CLIF, CFGF, DSF], [("errors are re-raised", CFGF + ":_default_setup; " + DSF + ":_read_coords")],
     note=CONFN + "Each input/output call and each evaluation gets an unknown failure bit; the run's failure condition and the guards of its writes are evaluated under each.")
prop("C28", "Arguments of the wrong kind are refused without side effects",
     "Building a body or station from anything but an array raises KeyError. Computing gravity for anything but bodies raises TypeError, also "
     "when only the last entry of a list is wrong, and leaves the gravity and gradient already accumulated unchanged.",
     ["inputs"], "all kinds of wrong arguments, at any place of a list", "Tests pass valid arguments, one wrong list at most.", [POLY, STAT],
     [("argument checks", POLY + ":Polyhedron.__init__; " + STAT + ":Station.__init__, compute_gravity")],
     note="Graph of the entry points with the wrong argument; exact on the model.")
prop("C29", "The command line means what its help says",
     "'geec run OUT' computes gravity only, with the built-in and user configuration; --gradient adds the gradient and --config FILE uses that file, "
     "in any order and spelling; 'geec config --output P' names the template's path. --version prints the package's version and --log the directory the "
     "log files go to, then the program ends with status 0 and writes nothing else. The log directory is made if missing; logging changes no result. "
     "'python -m geec' is the same program; importing it runs nothing.",
     ["configurations"], "all commands, options, orders and spellings", NOTEST + " and no test calls the command line.", [CLIF, APIF],
     [("options", CLIF + ":run, config, main"), ("log", APIF + ":setup_logdir, setup_logger"), ("entry", "geec/__main__.py")],
     note="The options declared in the source are read into a model of the typer command line; the calls an invocation makes are interpreted and their "
          "effects compared. Typer's own parsing is trusted as documented.")

NA = "Static analysis decides the graph over exact arithmetic; "
prop("N01", "Results are accurate to rounding", "For bodies and stations of realistic size and distance the computed components agree with the exact "
     "closed form to a relative error of about 1e-6 or better.", ["inputs"], "all bodies and stations", TESTS + ".", [POLY],
     [("floating-point evaluation", POLY)], claimed=False,
     reason=NA + "cancellation error depends on run-time magnitudes (distance over size) that no static bound in reach covers for log and arctan of differences.")
prop("N02", "The field fades to that of a point mass far away", "Far from a body its gravity approaches G*M/r^2 towards its centre of mass.",
     ["inputs"], "all bodies, distances growing", TESTS + ".", [POLY], [("closed form", POLY)], claimed=False,
     reason="A limit statement, and numerically a cancellation statement: follows from C12 in exact arithmetic, in floating point it depends on run-time magnitudes.")
prop("N03", "Results are finite on edges, corners and faces", "For a station on a face, edge or corner the result is finite or a clear error is raised, never NaN.",
     ["inputs"], "all stations on the surface", TESTS + ".", [POLY], [("special cases by comparison with epsilon", POLY)], claimed=False,
     reason="Whether a computed distance is exactly zero, or below machine epsilon, is decided by rounding of run-time coordinates; faces and edge lines off the body are covered exactly by C12.")
prop("N04", "Converting forth and back returns the coordinates", "Round trips through any frame return the point to within a millimetre.",
     ["inputs"], "all points", NOTEST + ".", [CRSF], [("pymap3d", CRSF)], claimed=False,
     reason="Numerical accuracy of the third-party conversions; that the program composes them as inverse pairs is C13 and C18.")
prop("N05", "Nearly degenerate bodies are built correctly", "Bodies with almost coplanar, duplicate or interior points give closed outward-oriented faces.",
     ["inputs"], "all point clouds", TESTS + ".", [POLY], [("scipy ConvexHull", POLY + ":Polyhedron._get_faces")], claimed=False,
     reason="Depends on qhull's run-time tolerances inside a compiled library; the program's own use of the hull is C08.")
prop("N06", "Evaluations may run in parallel", "Several threads may evaluate the same body at the same time.",
     ["schedules"], "all interleavings", "Tests are single-threaded.", [POLY], [("per-evaluation values stored in the body", POLY)], claimed=False,
     reason="Not a guarantee of the program: per-evaluation values are stored in the shared body by design, it is single-threaded, and nothing promises thread safety.")

# (further properties below)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, *_ in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note, claimed, reason in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        if claimed:
            cmd = f"python3-vt check.py {p['id']}"
            checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd + " --thorough", evidence_file=f"evidence/{p['id']}.json",
                               technique="static analysis: abstract interpretation of the source to a value and effect graph; "
                                         "graph equality / effect rules", level="other", level_note=note))
        else:
            na.append(dict(property=p["id"], reason=reason))
    json.dump(dict(version=1, setup_cmd="python3-vt -c 'import gva.checks'", checks=checks, not_applicable=na,
                   notes="No hooks in /repo. Repairs made there are listed in KNOWN_FINDINGS.md."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
