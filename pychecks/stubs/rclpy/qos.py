import enum


class QoSReliabilityPolicy(enum.Enum):
    RELIABLE = 1
    BEST_EFFORT = 2


class QoSHistoryPolicy(enum.Enum):
    KEEP_LAST = 1
    KEEP_ALL = 2


class QoSDurabilityPolicy(enum.Enum):
    TRANSIENT_LOCAL = 1
    VOLATILE = 2


ReliabilityPolicy, HistoryPolicy, DurabilityPolicy = QoSReliabilityPolicy, QoSHistoryPolicy, QoSDurabilityPolicy


class QoSProfile:
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)
