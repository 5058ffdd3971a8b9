import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import runner, checks_struct, checks_lib, checks_slices, checks_enum, checks_whole, checks_serde, checks_decl, checks_show, checks_doc, checks_pure, checks_errors, checks_config, checks_values

CHECKS = {}
for m in (checks_struct, checks_lib, checks_slices, checks_enum, checks_whole, checks_serde, checks_decl, checks_show, checks_doc, checks_pure, checks_errors, checks_config, checks_values):
    CHECKS.update(m.CHECKS)

if __name__ == "__main__":
    runner.main(CHECKS)
