"""C04: every written resource is framed as size, payload, padding."""
from checks import common as C, c03
def main():
    m = "checks.builder_drv"
    t = c03.tasks(C.TIER == "thorough") + [(m, "raw_case", ("bytes",)), (m, "raw_case", ("bytearray",)), (m, "file_case", ())]
    return c03.run("C04", t, c03.FUNCS + ["archive_builder.ArchiveBuilder.__init__", "archive_builder._write_schema/_write_index_schema/_write_raw_data", "file_resource_writer.FileResourceWriter"],
                   c03.ASSUME + ["open()/file.write()/flush()/close() of the operating system store the given bytes"])
