import launch


class TextSubstitution:
    def __init__(self, *, text):
        self.text = text

    def perform(self, context):
        return self.text


class LaunchConfiguration:
    def __init__(self, variable_name, *, default=None):
        self.variable_name = variable_name
        self.default = default

    def perform(self, context):
        name = launch.text(self.variable_name)
        if name in launch.state.arguments:
            return launch.state.arguments[name]
        if self.default is None:
            raise RuntimeError("launch configuration '%s' does not exist" % name)
        return launch.text(self.default)


class PathJoinSubstitution:
    def __init__(self, parts):
        self.parts = parts

    def perform(self, context):
        return '/'.join(launch.text(p) for p in self.parts)
