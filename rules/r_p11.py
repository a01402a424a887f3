"""P11: entry points that validate numbers refuse every meaningless class of number and accept every meaningful one."""
import re
import classes
from classes import F, seed, tail
from report import Check

NONFIN = "nan inf -inf"
FIN = ("- 0 p 1 P", NONFIN)                    # (accepted, refused)
POS = ("p 1 P", NONFIN + " - 0")
NONNEG = ("0 p 1 P", NONFIN + " -")
ELL = ("0 p", NONFIN + " - 1 P")
CONIC = ("0 p P", NONFIN + " - 1")
NOTZERO = ("- p 1 P", NONFIN + " 0")
NUMBER = ("- 0 p 1 P", "nan")
ABOVE = ("0 p 1 P", "-")
COUNT = ("1 P", "0")

# function -> argument (position:name; a field of it, [] an element of a list, [2+] of a list of two or more, [each/n] every element of an array, ? the value of an Option) -> classes it must accept and refuse
TABLE = {
    "ConicOrbit::try_new": {"1:periapsis_distance": POS, "2:eccentricity": CONIC, "6:mean_anomaly_at_epoch": FIN, "7:epoch": FIN, "3:inclination": FIN, "4:longitude_of_ascending_node": FIN, "5:argument_of_periapsis": FIN},
    "MeanMotionOrbit::try_new": {"1:semi_major_axis": POS, "2:eccentricity": ELL, "6:mean_motion": POS, "7:epoch": FIN, "3:inclination": FIN, "4:longitude_of_ascending_node": FIN, "5:argument_of_periapsis": FIN},
    "KeplerianOrbit::try_new": {"1:semi_major_axis": POS, "2:eccentricity": ELL, "6:mean_anomaly_at_epoch": FIN, "7:epoch": FIN, "3:inclination": FIN, "4:longitude_of_ascending_node": FIN, "5:argument_of_periapsis": FIN},
    "PreparedOrbit::try_from_elements": {"1:semi_major_axis": POS, "2:eccentricity": ELL, "6:mean_anomaly_at_epoch": FIN, "7:epoch": FIN, "3:inclination": FIN, "4:longitude_of_ascending_node": FIN, "5:argument_of_periapsis": FIN},
    "SpacecraftProperties::try_new": {"1:mass": POS, "2:drag_area": NONNEG, "4:srp_area": NONNEG, "3:cd": NONNEG, "5:cr": NONNEG},
    "ExponentialAtmosphere as DensityProvider>::density": {"2:altitude": ABOVE},
    "Nrlmsise00LiteApprox as DensityProvider>::density": {"2:altitude": ABOVE},
    "FixedRk4Adapter as AdaptiveStepper>::step": {"4:h_try": FIN, "1:self.step": NOTZERO},
    "ThrustArc::with_normalised_direction": {"4:isp": POS, "5:direction.[each/3]": FIN, "5:direction.[all/3]": NOTZERO},
    "pod::force::thrust::thrust_acceleration": {"2:spacecraft_mass": POS},
    "pod::force::thrust::mass_flow_rate": {"2:isp": POS},
    "Rk4Integrator as Integrator>::propagate": {"1:self.step when 4:dt=P": ("- p 1 P inf -inf", "nan 0")},
    "ephemeris::lagrange::fit::evaluate_fitted": {"2:jd": NUMBER},
    "LowThrustLog::try_new": {"1:initial_wet_mass": POS},
    "LowThrustLog::append": {"2:arc.isp": POS},
    "GaussMarkovParams::variance_after": {"1:self.sigma": NONNEG, "1:self.tau": POS},
    "ProcessNoiseModel::q_matrix": {"2:dt": NONNEG, "1:self.position_velocity.0.[each/3]": NONNEG, "1:self.empirical_white.?.[each/3]": NONNEG, "1:self.drag_scale.?.sigma": NONNEG, "1:self.drag_scale.?.tau": POS, "1:self.srp_scale.?.sigma": NONNEG, "1:self.srp_scale.?.tau": POS},
    "ProcessNoiseModel::is_psd": {"2:dt": NONNEG},
    "ParameterCovariance::validate_diagonal_nonneg": {"1:self.data.[] when 1:self.params.params.[]=any": ("0 p 1 P", "nan - -inf")},
    "ParameterCovariance::validate_symmetric": {"1:self.data.[] when 1:self.params.params.[2+]=any": ("", "nan")},
    "NormalEquations::add_row": {"4:sigma": POS, "3:residual": FIN, "2:partials.[].1": FIN},
    "OrbitEkf::update_scalar": {"4:r": NONNEG, "3:innovation": FIN, "2:h.[each/6]": FIN},
    "pod::estimation::nonlinear::gauss_newton": {"1:initial.[]": FIN, "2:opts.tol_rel": NONNEG, "2:opts.tol_chi2_rel": NONNEG, "2:opts.max_iter": COUNT},
    "pod::propagation::variational::param_partials_central_diff": {"6:epsilon": POS},
    "astro::sgp4::elements::tle_to_elements": {"1:tle.eccentricity": ELL, "1:tle.mean_motion": POS},
    "TlePropagator::from_tle": {"1:tle.eccentricity": ELL, "1:tle.mean_motion": POS},
    "TlePropagator::propagate_minutes": {"2:dt_minutes": FIN},
    "TlePropagator::propagate_at": {"2:target_jd_utc": FIN},
    "time::try_jd": {"1:raw": FIN},
    "time::try_mjd": {"1:raw": FIN},
    "time::try_jd_f64": {"1:value": FIN},
    "time::try_mjd_f64": {"1:value": FIN},
    "SpkSegment::evaluate": {"2:et": FIN},
    "CkKernel::rotation": {"3:sclkdp": NUMBER},
    "DynSegmentDescriptor::try_position_et": {"2:et_seconds": FIN, "1:self.intlen": POS, "1:self.init": FIN, "1:self.n_records": COUNT},
    "DynSegmentDescriptor::try_velocity_et": {"2:et_seconds": FIN, "1:self.intlen": POS, "1:self.init": FIN, "1:self.n_records": COUNT},
    "DynSegmentStack::try_position_et": {"2:et_seconds": FIN},
    "DynSegmentStack::try_velocity_et": {"2:et_seconds": FIN},
    "ephemeris::lagrange::fit::fit_sun_earth_lagrange": {"3:config.from": FIN, "3:config.to": FIN, "3:config.block": POS, "3:config.validation_step": POS},
    "atmosphere::airglow::van_rhijn_factor_with_radius": {"1:zenith": FIN, "2:emission_height": POS, "3:body_radius": POS},
    "event::lunar::photometry::reflected_lunar_spectral_radiance_jones2013": {"1:solar_irradiance_w_m2_nm": FIN, "4:moon_distance": POS},
}
SAY = {"nan": "NaN", "inf": "+infinity", "-inf": "-infinity", "-": "a negative number", "0": "zero", "p": "a number between 0 and 1", "1": "one", "P": "a number above 1"}


def each(rows):
    for path, k in rows.items():
        m = re.search(r"\[each/(\d+)\]", path)
        if m is None: yield path, k
        else:
            for i in range(int(m.group(1))): yield path.replace("[each/", f"[{i}/"), k


def run(db):
    ck = Check("P11", "abstract interpretation of MIR over classes of numbers (NaN, infinities, sign, below/at/above one): each validated argument in turn lies in each class, and success must be unreachable or reachable")
    E = classes.Eval(db); by = {}
    for b in db.local_fns():
        if b.kind == "fn": by.setdefault(tail(b.path), []).append(b)
    done = 0
    for suffix, rows in TABLE.items():
        bs = by.get(suffix, ())
        for b in bs:
            done += 1
            good = 1 if b.ty(0).startswith("core::option") else 0
            for path, (ok, bad) in each(rows):
                name = path.split(" ")[0].split(":")[1]
                for c in (ok + " " + bad).split():
                    args = seed(b, path, F(c))
                    if args is None: ck.violation(f"{b.path}|{path}|gone", f"{b.where()} in {b.path}: argument {path} is no longer there"); continue
                    out = E.run(b, args); ck.ob()
                    short = b.path.replace("siderust::", "")
                    if c in bad.split():
                        ck.count("classes that must be refused")
                        if classes.refused(out, good): c == "nan" and ck.sample(f"{short}: {name} = {SAY[c]} is refused")
                        else: ck.violation(f"{b.path}|{path}|{c}|refuse", f"{b.where()} in {short}: `{name}` = {SAY[c]} can reach a successful result instead of being refused")
                    else:
                        ck.count("classes that must be accepted")
                        if not classes.accepted(out, good): ck.violation(f"{b.path}|{path}|{c}|accept", f"{b.where()} in {short}: `{name}` = {SAY[c]} is meaningful but always refused")
    ck.count("entry points", done); ck.count("bodies and contexts evaluated", len(E.memo))
    ck.floor("entry points", 37); ck.floor("classes that must be refused", 370)
    return ck.finish("each argument is taken on its own, every other input is unknown; success is a path to a returned Ok, Some or number that the argument's class does not rule out, through every callee whose body is known")
