MC = "model_checking"
PROPS = {
    "C01": dict(
        level=MC,
        mc=[dict(module="MC_Kinematics")],
        driver="c01.py",
        trace="TraceKinematics",
        outputs={"xframe": ["ox", "otime", "odt"], "va": ["ov", "oa", "ox", "otime", "odt"], "a_vel": ["oa"], "a_pos": ["oa"], "concat": ["ox", "ov", "otime"]},
    ),
    "C02": dict(
        level=MC,
        mc=[dict(module="MC_Correlation", cfg_thorough="MC_Correlation_T.cfg")],
        driver="c02.py",
        trace="TraceCorrelation",
        outputs={"corr": ["out"], "corrlags": ["out"]},
    ),
    "C08": dict(
        level=MC,
        mc=[dict(module="MC_Projection", cfg_thorough="MC_Projection_T.cfg")],
        driver="c08.py",
        trace="TraceForce",
        outputs={"force": ["gram", "coeff"], "mean": ["mean"], "mass": ["mass"], "gramkernel": ["gram"], "zero": ["coeff"]},
    ),
    "C09": dict(
        level=MC,
        mc=[dict(module="MC_Models", cfg_thorough="MC_Models_T.cfg")],
        driver="c09.py",
        trace="TraceCorrs",
        outputs={"corrs": ["bkbk", "bkdx", "dotbkbk", "dotbkdx"]},
    ),
    "C10": dict(
        level=MC,
        mc=[dict(module="MC_Projection", cfg_thorough="MC_Projection_T.cfg")],
        driver="c10.py",
        trace="TraceCorrs",
        outputs={"corrs": ["bkbk", "bkdx", "dotbkbk", "dotbkdx"], "proj": ["P"], "same": ["b"]},
    ),
    "C07": dict(
        level=MC,
        mc=[dict(module="MC_Pool", cfg_thorough="MC_Pool_T.cfg")],
        driver="c07.py",
        trace="TracePool",
        outputs={"pool": ["out"], "same": ["b"]},
    ),
    "C11": dict(level=MC, mc=[dict(module="MC_Volterra", cfg_thorough="MC_Volterra_T.cfg"), dict(module="MC_Volterra", cfg="MC_Volterra_M.cfg")], driver="c11.py", trace="TraceVolterra", outputs={"kernel": ["out", "otime"], "same": ["b"]}),
    "C12": dict(level=MC, mc=[dict(module="MC_Volterra", cfg_thorough="MC_Volterra_T.cfg"), dict(module="MC_Volterra", cfg="MC_Volterra_M.cfg")], driver="c12.py", trace="TraceVolterra", outputs={"kernel": ["out", "otime"]}),
    "C03": dict(level=MC, mc=[dict(module="MC_Basis", cfg_thorough="MC_Basis_T.cfg")], driver="c03.py", trace="TraceBasis", outputs={"eval": ["val", "grad", "hess", "anti"]}),
    "C04": dict(level=MC, mc=[dict(module="MC_Basis", cfg_thorough="MC_Basis_T.cfg")], driver="c04.py", trace="TraceBasis", outputs={"eval": ["val", "grad", "hess", "anti"]}),
    "C05": dict(level=MC, mc=[dict(module="MC_Basis", cfg_thorough="MC_Basis_T.cfg")], driver="c05.py", trace="TraceBasis", outputs={"combine": ["out"], "tensor": ["val", "grad", "hess"]}),
    "C06": dict(level=MC, mc=[dict(module="MC_Fem", cfg_thorough="MC_Fem_T.cfg")], driver="c06.py", trace="TraceFem", outputs={"fem": ["val", "grad"], "force": ["coeff"]}),
    "C13": dict(level=MC, mc=[dict(module="MC_Volterra", cfg_thorough="MC_Volterra_T.cfg"), dict(module="MC_Volterra", cfg="MC_Volterra_M.cfg")], driver="c13.py", trace="TraceVolterra", outputs={}),
    "C16": dict(level=MC, mc=[dict(module="MC_Volterra", cfg_thorough="MC_Volterra_T.cfg"), dict(module="MC_Volterra", cfg="MC_Volterra_M.cfg")], driver="c16.py", trace="TraceVolterra", outputs={"ide": ["out", "otime"]}),
    "C17": dict(level=MC, mc=[dict(module="MC_Volterra", cfg_thorough="MC_Volterra_T.cfg"), dict(module="MC_Volterra", cfg="MC_Volterra_M.cfg")], driver="c17.py", trace="TraceVolterra", outputs={"check": ["out"], "flux": ["force", "mem"], "laplace": ["os", "out"]}),
    "C14": dict(level=MC, mc=[dict(module="MC_Memory", cfg_thorough="MC_Memory_T.cfg")], driver="c14.py", trace="TraceMemory", outputs={"noise": ["noise", "obs", "force", "mem", "otime"]}),
    "C15": dict(level=MC, mc=[dict(module="MC_Memory", cfg_thorough="MC_Memory_T.cfg")], driver="c15.py", trace="TraceMemory", outputs={"pcorr": ["out", "otime"]}),
    "C18": dict(level=MC, mc=[dict(module="MC_Integrator", cfg_thorough="MC_Integrator_T.cfg")], driver="c18.py", trace="TraceIntegrator", outputs={"run": ["ox", "ov", "otime", "odt"], "start": ["ox", "ov", "otime"]}),
    "C19": dict(level=MC, mc=[dict(module="MC_Noise", cfg_thorough="MC_Noise_T.cfg")], driver="c19.py", trace="TraceIntegrator", outputs={"coloured": ["resp"], "kl": ["resp"], "stat": ["out"]}),
    "C20": dict(level=MC, mc=[], gen=[dict(module="MC_Storage")], driver="c20.py", trace="TraceStorage", trace_cfg="TraceStorage.cfg", outputs={"op": ["live", "saved", "loaded"]}),
    "C21": dict(level=MC, mc=[], gen=[dict(module="MC_Lifecycle")], driver="c21.py", trace="TraceLifecycle", outputs={"ask": ["val"], "do": ["held"]}),
    "C22": dict(level=MC, mc=[dict(module="MC_Models", cfg_thorough="MC_Models_T.cfg")], driver="c22.py", trace="TraceModel", outputs={"force": ["out"], "friction": ["out"], "kernel": ["out"], "pmf": ["out"], "posmass": ["coeff"], "numpmf": ["out"], "invmass": ["out"]}),
    "C23": dict(level=MC, mc=[dict(module="MC_Fit", cfg_thorough="MC_Fit_T.cfg")], driver="c23.py", trace="TraceFit", outputs={"eval": ["out"], "keval": ["out"], "fit": ["p"], "kfit": ["p"], "asymptotic": ["out"], "friction": ["out"]}),
    "C24": dict(level=MC, mc=[dict(module="MC_Fit", cfg_thorough="MC_Fit_T.cfg")], driver="c24.py", trace="TraceFit", outputs={"peval": ["out"], "pkeval": ["out"], "pfit": ["y0", "A"], "inspect": ["out"], "modes": ["out"]}),
    "C25": dict(level=MC, mc=[dict(module="MC_Pool", cfg_thorough="MC_Pool_T.cfg")], driver="c25.py", trace="TraceData", outputs={"accept": ["weights", "odt", "weightsum"], "describe": ["nobs", "mean", "lo", "var", "skew", "kurt"]}),
    "C26": dict(level=MC, mc=[dict(module="MC_FreeEnergy", cfg_thorough="MC_FreeEnergy_T.cfg")], driver="c26.py", trace="TraceFe", outputs={"hist": ["xf", "p"], "fe": ["xf", "fe", "force", "ma", "ft", "mass"]}),
    "C27": dict(level=MC, mc=[dict(module="MC_Models", cfg_thorough="MC_Models_T.cfg")], driver="c27.py", trace="TraceData", outputs={"gfpe": ["out"], "force": ["coeff"], "corrs": ["bkbk", "bkdx"]}),
    "C28": dict(level=MC, mc=[dict(module="MC_Fem", cfg_thorough="MC_Fem_T.cfg")], driver="c28.py", trace="TraceFem", outputs={"line": ["out"], "dataline": ["out"], "centroid": ["out"], "intersect": ["out"], "mesh": ["verts"]}),
}
