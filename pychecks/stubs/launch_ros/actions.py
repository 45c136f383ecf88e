class Node:
    def __init__(self, *, executable, package=None, name=None, namespace=None, parameters=None, remappings=None, arguments=None, **kwargs):
        self.package, self.executable, self.name, self.namespace = package, executable, name, namespace
        self.parameters, self.remappings, self.arguments = parameters or [], remappings or [], arguments or []


class PushRosNamespace:
    def __init__(self, namespace, **kwargs):
        self.namespace = namespace
