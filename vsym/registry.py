"""Scenario registry: each scenario is one harness over real OpenMS functions."""
SCENARIOS = {}    # property id -> list of dict


def scenario(prop, name, quick=({},), thorough=(), about="", bounds="", limit=240):
    """quick/thorough: list of configurations (sizes, switches); thorough adds to quick"""
    def deco(fn):
        SCENARIOS.setdefault(prop, []).append(dict(
            prop=prop, name=name, fn=fn, quick=list(quick), thorough=list(thorough), about=about,
            bounds=bounds, limit=limit))
        return fn
    return deco
