import array
import types


class PointField:
    INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 = range(1, 9)

    def __init__(self, name='', offset=0, datatype=0, count=0):
        self.name, self.offset, self.datatype, self.count = name, offset, datatype, count

    def __eq__(self, o):
        return self.__dict__ == o.__dict__

    def __repr__(self):
        return 'PointField(%r)' % (self.__dict__,)


class PointCloud2:
    def __init__(self, **kwargs):
        self.header = types.SimpleNamespace(stamp=types.SimpleNamespace(sec=0, nanosec=0), frame_id='')
        self.height = self.width = 0
        self.fields = []
        self.is_bigendian = False
        self.point_step = self.row_step = 0
        self.data = array.array('B')
        self.is_dense = False
        self.__dict__.update(kwargs)
