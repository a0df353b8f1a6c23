"""C09: directory and TAR storages resolve names alike."""
from checks import c08
M = "checks.open_drv"
def main():
    t = [(M, "tar_get_case", (o,)) for o in (False, True)] + [(M, "file_get_case", (o,)) for o in (False, True)] + [(M, "map_case", ()), (M, "tar_create_case", ())]
    return c08.run("C09", t, ["tar_archive_resource_storage.TarArchiveResourceStorage.create/get/_path", "file_resource_storage.FileResourceStorage.get/memory_map"],
                   ["tarfile iterates the members of an uncompressed archive in order and reports name, type, data offset and size correctly", "os.path.exists/isfile/isdir/join and mmap behave as documented",
                    "any number of entries with arbitrary names; keys are non-empty, do not start with '/'; files are regular and not empty; a TAR file lists its directories"], (40, 600), "file trees stored in a directory and in a TAR file, every name looked up in both")
