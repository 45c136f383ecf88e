"""In-process stand-in for rclpy: topics are delivered synchronously, spin calls a hook."""
import types

state = types.SimpleNamespace(spin_hook=None, inits=0, shutdowns=0, topics={}, endpoints=[])


def init(args=None, context=None):
    state.inits += 1


def shutdown(context=None):
    state.shutdowns += 1


def ok(context=None):
    return state.shutdowns < state.inits


def spin(node, executor=None):
    if state.spin_hook:
        state.spin_hook(node)


def spin_once(node, executor=None, timeout_sec=None):
    spin(node)
