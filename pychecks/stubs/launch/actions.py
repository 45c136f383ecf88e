import launch


class DeclareLaunchArgument:
    def __init__(self, name, *, default_value=None, description='', **kwargs):
        self.name, self.default_value = name, default_value

    def apply(self):
        if self.name not in launch.state.arguments and self.default_value is not None:
            launch.state.arguments[self.name] = launch.text(self.default_value)


class GroupAction:
    def __init__(self, actions, **kwargs):
        self.actions = actions


class LogInfo:
    def __init__(self, **kwargs):
        pass
