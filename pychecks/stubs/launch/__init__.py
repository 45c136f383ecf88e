"""Stand-in for the launch package: descriptions are inspected, nothing is started."""
import types

state = types.SimpleNamespace(arguments={})     # launch arguments given on the command line


class LaunchDescription:
    def __init__(self, initial_entities=None):
        self.entities = list(initial_entities or [])

    def add_action(self, action):
        self.entities.append(action)


def text(value):
    """Performs substitutions."""
    if value is None:
        return None
    if isinstance(value, (list, tuple)):
        return ''.join(text(v) for v in value)
    return value.perform(None) if hasattr(value, 'perform') else str(value)
