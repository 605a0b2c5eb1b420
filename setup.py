#!/usr/bin/env python3
"""pre-build the harness objects (checks rebuild whatever changed in /repo since)"""
import os
import check
for p, cfg in check.CONFIG.items():
    if os.path.exists(os.path.join(check.MC, p.lower() + ".cpp")):
        check.build(p, "fast", cfg.get("tools", []))
        if cfg.get("asan"):
            check.build(p, "asan", cfg.get("tools", []))
print("built")
