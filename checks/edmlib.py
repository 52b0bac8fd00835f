"""Entity containers in memory or in a SQLite file shared by processes."""
import os
import ssl  # noqa: F401  (before the seams go in)

from sim import fs as simfs
from sim import sql as simsql

simfs.install()
simsql.install()

from pyslet.odata2 import metadata as edmx  # noqa: E402
from pyslet.odata2.memds import InMemoryEntityContainer  # noqa: E402
from pyslet.odata2.sqlds import SQLiteEntityContainer, SQLiteStreamStore  # noqa: E402


def parse(source, name):
    doc = edmx.Document()
    doc.read(src=source)
    return doc, doc.root.DataServices[name]


class Mem(object):

    """One in-memory container, shared by the threads of one process."""

    kind = 'mem'

    def __init__(self, w, source, name):
        self.w = w
        self.doc, self.c = parse(source, name)
        self.container = InMemoryEntityContainer(self.c)

    def open(self, **kw):
        return self.c


class Sql(object):

    """A SQLite file; every process opens its own container on it."""

    kind = 'sql'

    def __init__(self, w, source, name, streams=0, memory=False):
        self.w = w
        self.memory = memory
        self.source = source
        self.name = name
        self.db = simsql.DB(w)
        self.dir = w.scratch()
        self.path = os.path.join(self.dir, 'data.db')
        # the maximum size of the blocks of media streams
        self.streams = streams
        self.docs = []
        self.containers = []
        # made before the faults start
        c = self.open()
        w.quiet += 1
        try:
            self.containers[0].create_all_tables()
            if not memory:
                self.containers[0].close()
        finally:
            w.quiet -= 1

    def open(self, **kw):
        """A new container, as a process that starts has."""
        if self.memory and self.containers:
            # there is just one
            return self.containers[0].container
        doc, c = parse(self.source, self.name)
        self.docs.append(doc)
        if self.streams:
            kw['streamstore'] = SQLiteStreamStore(
                os.path.join(self.dir, 'streams.db'))
            kw['streamstore'].bs.max_block_size = self.streams
            c.streamstore = kw['streamstore']
        self.containers.append(SQLiteEntityContainer(
            file_path=':memory:' if self.memory else self.path, container=c, **kw))
        c.sql_container = self.containers[-1]
        return c

    def rows(self, query, *args):
        """Look into the file behind everybody's back."""
        if self.memory:
            return self.containers[0].sqlite_memdbc.real.execute(
                query, args).fetchall()
        conn = simsql._real['connect'](self.path, timeout=0)
        try:
            return conn.execute(query, args).fetchall()
        finally:
            conn.close()
