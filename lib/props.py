"""The registry of checks."""
import p_ben, p_tor, p_store, p_cont, p_wire, p_pick, p_io, p_track, p_opts, p_sess, p_idle, p_report

CHECKS, META, NA = {}, {}, {}
for m in (p_ben, p_tor, p_store, p_cont, p_wire, p_pick, p_io, p_track, p_opts, p_sess, p_idle, p_report):
    for pid, v in m.CHECKS.items():
        fn, technique, note, assumptions = v
        CHECKS[pid] = (fn, 'model_checking', assumptions)
        META[pid] = (technique, note)
