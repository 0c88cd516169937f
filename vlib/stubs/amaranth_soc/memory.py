"""Stand-in for amaranth_soc.memory.MemoryMap: keeps the resources it is given, allocates nothing."""


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0):
        self.addr_width, self.data_width, self.alignment = addr_width, data_width, alignment
        self.resources = []

    def add_resource(self, resource, *, name, size, addr=None, alignment=None):
        self.resources.append((resource, name, size, addr))
