REAL = "floats are modelled as real numbers (no rounding), Python ints and C integers as mathematical integers unless stated"

PROPS = {
    "C01": ("props.p_bls", [REAL]),
    "C02": ("props.p_select", [REAL]),
    "C03": ("props.p_add", [REAL]),
    "C04": ("props.p_reorder", [REAL]),
    "C05": ("props.p_conj", [REAL]),
    "C06": ("props.p_access", [REAL]),
    "C07": ("props.p_phase", [REAL]),
    "C08": ("props.p_coord", [REAL]),
    "C09": ("props.p_resample", [REAL]),
    "C10": ("props.p_freqavg", [REAL]),
    "C11": ("props.p_redun", [REAL]),
    "C12": ("props.p_sumdiff", [REAL]),
    "C13": ("props.p_flag", [REAL]),
    "C14": ("props.p_flagops", [REAL]),
    "C15": ("props.p_cal", [REAL]),
    "C16": ("props.p_caladd", [REAL]),
    "C17": ("props.p_uvcal", [REAL]),
    "C18": ("props.p_beam", [REAL]),
    "C19": ("props.p_uvh5", [REAL, "values stored in single precision are compared to 1e-4"]),
    "C20": ("props.p_h5cal", [REAL]),
    "C21": ("props.p_fits", [REAL]),
}
