"""Which jobs decide which property. See DESIGN.md."""


def R(job, spec, quick=("quick",), thorough=("thorough",)):
    return {"kind": "replay", "job": job, "spec": spec, "cfg": {"quick": list(quick), "thorough": list(thorough)}}


def T(job, spec, cfg=None, seeds=(1, 4)):
    return {"kind": "trace", "job": job, "spec": spec, "cfg": cfg or spec, "seeds": {"quick": seeds[0], "thorough": seeds[1]}}


PROPS = {
    "A01": {"jobs": [R("alt_periods", "AltSearch", ("quick", "edge"), ("thorough", "deep", "edge")), T("alt_real", "TraceAlt", "TraceAlt.periods")],
            "assumptions": ["arcs shorter than a few seconds are not required to be found",
                            "sampled altitudes within 0.03 deg of a threshold do not decide a side"]},
    "A02": {"jobs": [R("alt_events", "AltSearch", ("quick", "edge"), ("thorough", "deep", "edge")), T("alt_real", "TraceAlt", "TraceAlt.events")],
            "assumptions": ["arcs shorter than a few seconds are not required to be found"]},
    "A03": {"jobs": [R("azimuth", "AzSearch", ("quick",), ("thorough", "deep")), T("az_real", "TraceAz")],
            "assumptions": ["stays and gaps shorter than one scan step (10 minutes unless the body hints otherwise) need not be found",
                            "sampled azimuths within 0.025 deg of a bearing do not decide a side"]},
    "S01": {"jobs": [R("spk_pool", "SpkPool", ("quick",), ("quick", "thorough", "three"))], "assumptions": []},
    "S02": {"jobs": [R("spice_text", "SpiceText")], "assumptions": ["the reading of a TK matrix (row order) is the one documented by the crate"]},
    "S03": {"jobs": [R("spk_stack", "SpkStack", ("quick", "major"), ("thorough", "major5"))],
            "assumptions": ["a runtime ephemeris may resolve the Earth through the Moon or refuse when its own segment is out of span"]},
    "S04": {"jobs": [R("spk_damage", "SpkDamage", ("quick",), ("quick",))], "assumptions": ["which damaged files are still accepted is not decided"]},
    "P01": {"jobs": [R("lsq_rows", "LsqRows"), R("lsq_iterate", "LsqIterate")], "assumptions": ["equations singular up to rounding may be solved or refused, unless a parameter was never observed"]},
    "P02": {"jobs": [R("ekf", "EkfPair", ("quick",), ("thorough", "deep")), R("noise", "NoisePlan", ("quick",), ("quick",))], "assumptions": []},
    "P03": {"jobs": [R("thrust", "ThrustLog")], "assumptions": ["a negative thrust is not decided"]},
    "F01": {"jobs": [R("oem", "OemDoc"), R("opm", "OpmDoc"), R("tdm", "TdmDoc"), R("dates_ccsds", "CalendarWalk", ("wide",), ("wide",))],
            "assumptions": ["the units an OPM may use and the spacing a TDM keyword line may use are those the crate documents"]},
    "F02": {"jobs": [R("sp3", "Sp3Doc"), R("cpf", "CpfDoc"), R("crd", "CrdDoc"), R("orbex", "OrbexDoc"), R("dates_laser", "CalendarWalk", ("civil",), ("civil",))],
            "assumptions": ["a CRD session lasts less than half a day", "header dates written by the CPF writer are placeholders"]},
    "F03": {"jobs": [R("nav", "NavDoc"), R("obs", "ObsDoc"), R("doris", "DorisDoc"), R("dates_rinex", "CalendarWalk", ("civil",), ("civil",))],
            "assumptions": ["a navigation record with a missing line in permissive mode and an observation file cut off inside an epoch are not decided"]},
    "F04": {"jobs": [R("sinex", "SinexDoc"), R("antex", "AntexDoc"), R("eop", "EopTable"), R("dates_sinex", "CalendarWalk", ("civil",), ("civil",))],
            "assumptions": ["permissive SINEX reading keeps a station whose reference epoch cannot be read"]},
    "F05": {"jobs": [R("tle_write", "TleCard", ("write",), ("write3",)), R("tle_read", "TleCard", ("read",), ("read",)),
                     R("omm_read", "OmmDoc", ("read",), ("read3",)), R("omm_hold", "OmmDoc", ("hold",), ("hold3",))],
            "assumptions": ["epochs before UTC is defined cannot be held", "values written to OMM KVN and XML keep the digits those writers print"]},
    "F06": {"jobs": [R("cpr", "CprPair", ("near", "far", "local"), ("nearall", "far", "localall")),
                     R("adsb", "AdsbFrame", ("velocity", "ident", "altitude", "position", "format", "damage"), ("velocity", "ident", "altitude", "position", "format", "damage3"))],
            "assumptions": ["the even and odd report of a pair are sent from places less than 0.05 degrees apart", "latitudes of exactly 87 degrees are not decided", "altitudes in Gillham code are reported as unknown"]},
    "M01": {"jobs": [R("mission", "MissionGeo", ("los", "shadow", "mask", "sky", "sun", "fov", "names"), ("los3", "shadow", "mask4", "sky", "sun", "fov", "names5"))],
            "assumptions": ["observers on the very surface of a sphere, and lines that graze it, are not decided"]},
    "C01": {"jobs": [R("frames", "FrameWalk", ("edge", "way", "loop"), ("edge", "way", "loop", "loop3"))],
            "assumptions": ["the periodic part of the CIO locator (2.6 mas) is below the tolerance", "what the precession, nutation and rotation models themselves give at other epochs than the tabulated ones is not decided"]},
    "C02": {"jobs": [R("centers", "CenterWalk", ("pair", "walk", "drift", "body", "site"), ("pair", "walk3", "drift", "body4", "site4"))],
            "assumptions": ["the planets are where VSOP87 has them, checked against mean elements only"]},
    "C03": {"jobs": [R("sky", "LocalSky", ("sky", "walk", "convention", "body", "grid"), ("sky5", "walk3", "convention2", "body", "grid"))],
            "assumptions": ["refraction and the height of the site above the ellipsoid do not enter altitudes of things told by direction", "directions within 0.01 arcsec are the same"]},
    "C04": {"jobs": [R("apparent", "Apparent", ("moving", "moving2", "bend", "linear", "space", "policy", "observer"), ("moving", "moving3", "bend", "linear", "space4", "policy3", "observer"))],
            "assumptions": ["bent light is that of the first order in the Schwarzschild radius, without a limit at the limb", "a year of a proper motion is a Julian one"]},
    "P04": {"jobs": [R("forces", "ForceModel", ("gravity", "third", "shade", "cone", "drag", "small", "periodic", "high", "sum", "registry"), ("gravity", "third", "shade", "cone", "drag", "small", "periodic", "high", "sumall", "registry4"))],
            "assumptions": ["the Earth turns by its rotation angle of UT1 only (no polar motion, as documented)", "at a pole the harmonics of order one are not looked at (the kernel is that of the dependency principia)"]},
    "O01": {"jobs": [R("orbits", "TwoBody", ("ellipse", "long", "hyperbola", "refuse"), ("ellipse", "long", "hyperbola", "refuse"))],
            "assumptions": ["nearly straight orbits are compared within what a rounding of the mean anomaly moves the body"]},
    "P05": {"jobs": [R("orbits", "TwoBody", ("fly",), ("fly4",))],
            "assumptions": ["sample times are whole quarters of a second (principia, a dependency, can miss a sample when rounding lets a step end just short of it)"]},
}
