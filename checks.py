"""The table of checks: property id -> how its monitors are built and run."""

CHECKS = {
    "C01": {"scope": "core", "harness": ["c01_queue.cpp"]},
    "C02": {"scope": "core", "harness": ["c02_callbacks.cpp"]},
    "C03": {"scope": "core", "harness": ["c03_scope_guard.cpp"]},
    "C04": {"scope": "core", "harness": ["c04_status.cpp"]},
    "C05": {"scope": "core", "harness": ["c05_severity.cpp"]},
    "C06": {"scope": "core", "harness": ["c06_records.cpp"]},
    "C07": {"scope": "full", "harness": ["c07_control_flow.cpp"]},
    "C08": {"scope": "full", "harness": ["c08_status.cpp"]},
    "C09": {"scope": "full", "harness": ["c09_parallel.cpp"]},
    "C10": {"scope": "full", "harness": ["c10_job.cpp"]},
    "C11": {"scope": "full", "harness": ["c11_breakpoints.cpp"]},
    "C12": {"scope": "full", "harness": ["c12_halt.cpp"]},
    "C13": {"scope": "full", "harness": ["c13_lifetime.cpp", "full.cpp"]},
    "C14": {"scope": "full", "harness": ["c14_info.cpp", "full.cpp"]},
    "C15": {"scope": "full", "harness": ["c15_include.cpp", "full.cpp"]},
    "C16": {"scope": "full", "harness": ["c16_reset.cpp", "full.cpp"]},
    "C29": {"scope": "full", "harness": ["c29_trees.cpp", "full.cpp"]},
    "C18": {"scope": "full", "harness": ["c18_workspace.cpp", "full.cpp"]},
    "C31": {"scope": "full", "harness": ["c31_helpers.cpp", "full.cpp"], "ldflags": ["-rdynamic"]},
    "C30": {"scope": "full", "harness": ["c30_soak.cpp", "full.cpp"]},
    "C19": {"scope": "full", "harness": ["c19_concurrent.cpp", "full.cpp"]},
    "C21": {"scope": "full", "harness": ["c21_data.cpp", "full.cpp"]},
    "C22": {"scope": "full", "harness": ["c22_waits.cpp", "full.cpp"]},
    "C23": {"scope": "full", "harness": ["c23_exchange.cpp", "full.cpp"]},
    "C27": {"scope": "full", "harness": ["c27_requests.cpp", "full.cpp"]},
    "C28": {"scope": "full", "harness": ["c28_applications.cpp", "full.cpp"], "extra": ["src/app/*/*.cpp"]},
    "C24": {"scope": "full", "harness": ["c24_roundtrip.cpp", "full.cpp"]},
    "C26": {"scope": "full", "harness": ["c26_registries.cpp", "full.cpp"]},
    "C20": {"scope": "full", "harness": ["c20_file.cpp", "full.cpp"]},
    "C17": {"scope": "full", "harness": ["c17_setup.cpp", "full.cpp"]},
    "C25": {"scope": "full", "harness": ["c25_fuzz.cpp", "full.cpp"]},
}
