PROPS = {
    "C01": {"harness": ["gp_posterior.cpp"]},
    "C02": {"harness": ["gp_history.cpp"]},
    "C03": {"harness": ["gp_lik.cpp"], "select_prefix": "lik_"},
    "C04": {"harness": ["gp_lik.cpp"], "select_prefix": "loo_"},
    "C05": {"harness": ["gp_tune.cpp"]},
    "C06": {"harness": ["multi_gp.cpp"]},
    "C07": {"harness": ["sparsified.cpp"]},
    "C08": {"harness": ["archive.cpp"]},
    "C09": {"harness": ["kernels.cpp"], "select_prefix": "val_"},
    "C10": {"harness": ["kernels.cpp"], "select_prefix": "grad_"},
    "C11": {"harness": ["means.cpp"]},
    "C12": {"harness": ["acquis.cpp"]},
    "C13": {"harness": ["optimizers.cpp"], "select_prefix": "box_"},
    "C14": {"harness": ["optimizers.cpp"], "select_prefix": "rule_"},
    "C15": {"harness": ["nlopt_wrap.cpp"]},
    "C16": {"harness": ["init_designs.cpp"]},
    "C17": {"harness": ["bo_loop.cpp"]},
    "C18": {"harness": ["bo_invalid.cpp"]},
    "C19": {"harness": ["bo_best.cpp"]},
    "C20": {"harness": ["bo_stop.cpp"]},
    "C21": {"harness": ["stats.cpp"]},
    "C23": {"harness": ["helpers.cpp"]},
    "C24": {"harness": ["pareto_seq.cpp", "pareto_tbb.cpp"], "flags": {"pareto_tbb.cpp": ["-I@/stubs", "-DUSE_TBB"]}, "race": ["pareto_tbb.cpp"]},
    "C25": {"harness": ["parego.cpp"]},
    "C26": {"harness": ["constrained.cpp"]},
    "C27": {"harness": ["imgpo.cpp"]},
    "C28": {"harness": ["spgp.cpp"]},
    "C29": {"harness": ["cmaes.cpp"], "flags": {"cmaes.cpp": ["-I@/stubs", "-DUSE_LIBCMAES"]}},
    "C30": {"harness": ["ehvi_acqui.cpp", "ehvi_loop.cpp", "nsbo.cpp"], "flags": {"nsbo.cpp": ["-I@/stubs", "-DUSE_SFERES"]}},
    "C31": {"harness": ["hv.cpp"]},
    "C32": {"harness": ["ehvi_lib.cpp"]},
    "C22": {"harness": ["parallel_seq.cpp", "parallel_tbb.cpp"], "flags": {"parallel_tbb.cpp": ["-I@/stubs", "-DUSE_TBB"]}, "race": ["parallel_tbb.cpp"]},
}
NOT_APPLICABLE = {}
