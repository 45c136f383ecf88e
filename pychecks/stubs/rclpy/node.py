import rclpy


def full(topic):
    return topic if topic.startswith('/') else '/' + topic


class Publisher:
    def __init__(self, topic):
        self.topic = topic

    def publish(self, msg):
        for f in list(rclpy.state.topics.get(self.topic, [])):
            f(msg)


class Logger:
    def __getattr__(self, name):
        return lambda *a, **k: None


class Node:
    def __init__(self, name, **kwargs):
        self.name = name
        self.callbacks = []

    def create_subscription(self, msg_type, topic, callback, qos_profile, **kwargs):
        rclpy.state.endpoints.append((False, topic, msg_type.__name__, qos_profile))
        rclpy.state.topics.setdefault(full(topic), []).append(callback)
        self.callbacks.append((full(topic), callback))
        return callback

    def create_publisher(self, msg_type, topic, qos_profile, **kwargs):
        rclpy.state.endpoints.append((True, topic, msg_type.__name__, qos_profile))
        return Publisher(full(topic))

    def get_logger(self):
        return Logger()

    def destroy_node(self):
        for topic, callback in self.callbacks:
            rclpy.state.topics[topic].remove(callback)
        self.callbacks = []
