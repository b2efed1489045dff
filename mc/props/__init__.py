"""One module per property: SPACES, and optionally ASSUMPTIONS and BUDGET (wall seconds per tier)."""
import importlib

ASSUMPTIONS = [
    'the reference model in mc/ref.py and mc/refsuggest.py states the documented semantics correctly',
    'behaviour outside the stated alphabets and bounds is not explored',
]
BUDGET = {'quick': 420, 'thorough': 5400}


def get(prop):
    module = importlib.import_module('mc.props.' + prop.lower())
    return (module.SPACES, ASSUMPTIONS + getattr(module, 'ASSUMPTIONS', []),
            {**BUDGET, **getattr(module, 'BUDGET', {})})
