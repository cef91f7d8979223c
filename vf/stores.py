"""The stores under test, made in scratch directories.

There is no MySQL or PostgreSQL server here: their stores run on SQLite, behind a connection that
reads their SQL, takes parameters like their drivers, and gives text for character columns and
bytes for binary ones.
"""
import os
import re
import shutil
import sqlite3
import sys
import tempfile
import types

from openid.store.filestore import FileOpenIDStore
from openid.store.memstore import MemoryStore
from openid.store.sqlstore import MySQLStore, PostgreSQLStore, SQLiteStore

KINDS = ['memory', 'file', 'sqlite']
ALL_KINDS = KINDS + ['mysql', 'postgres']
SQL_STORES = {'sqlite': SQLiteStore, 'mysql': MySQLStore, 'postgres': PostgreSQLStore}
BINARY = ('secret', 'server_url')
if 'psycopg2' not in sys.modules:
    sys.modules['psycopg2'] = types.ModuleType('psycopg2')
    sys.modules['psycopg2'].Binary = bytes


class Cursor(object):
    rows = None

    def __init__(self, cur):
        self.cur = cur

    def execute(self, sql, args=()):
        self.rows = None
        sql = re.sub(r'\)\s*ENGINE\s*=\s*InnoDB', ')', sql).replace('server_url(255)', 'server_url')
        self.cur.execute(sql.replace('%s', '?'), tuple(a.encode('utf-8') if isinstance(a, str) else a for a in args))

    def executemany(self, sql, args):
        for a in args:
            self.execute(sql, a)

    def fetchall(self):
        if self.rows is not None:
            rows, self.rows = self.rows, []
            return rows
        names = [d[0] for d in self.cur.description]
        return [tuple(v.decode('utf-8') if isinstance(v, bytes) and n not in BINARY else v for n, v in zip(names, row)) for row in self.cur.fetchall()]

    def fetchone(self):
        # all are fetched at once, and handed out one by one
        if self.rows is None:
            self.rows = self.fetchall()
        return self.rows.pop(0) if self.rows else None

    def fetchmany(self, size=1):
        rows = [self.fetchone() for _ in range(size)]
        return [r for r in rows if r is not None]

    def __iter__(self):
        return iter(self.fetchone, None)

    @property
    def rowcount(self):
        return self.cur.rowcount

    @property
    def description(self):
        return self.cur.description

    def close(self):
        self.cur.close()


class Connection(object):
    """Stands in for a connection to a database server."""
    IntegrityError, OperationalError, Error = sqlite3.IntegrityError, sqlite3.OperationalError, sqlite3.Error

    def __init__(self, conn):
        self.conn = conn

    def cursor(self):
        return Cursor(self.conn.cursor())

    def commit(self):
        self.conn.commit()

    def rollback(self):
        self.conn.rollback()

    def __enter__(self):
        return self

    def __exit__(self, kind, value, tb):
        if kind is None:
            self.commit()
        else:
            self.rollback()

    def close(self):
        self.conn.close()


class Box(object):
    """A store of some kind, with what is needed to open it again."""

    def __init__(self, kind):
        self.kind = kind
        self.dir = None
        self.conns = []
        if kind == 'memory':
            self.store = MemoryStore()
        elif kind == 'file':
            self.dir = tempfile.mkdtemp(prefix='store')
            self.store = FileOpenIDStore(self.dir)
        else:
            self.dir = tempfile.mkdtemp(prefix='store')
            self.store = self._sqlite()
            self.store.createTables()

    def _sqlite(self):
        for c in self.conns:
            c.close()
        conn = sqlite3.connect(os.path.join(self.dir, 'db'))
        conn.execute('PRAGMA synchronous=OFF')
        conn.execute('PRAGMA journal_mode=MEMORY')
        self.conns = [conn]
        return SQLiteStore(conn) if self.kind == 'sqlite' else SQL_STORES[self.kind](Connection(conn), 'my_associations', 'my_nonces')

    def reopen(self):
        if self.kind == 'file':
            self.store = FileOpenIDStore(self.dir)
        elif self.kind in SQL_STORES:
            self.store = self._sqlite()

    def close(self):
        for c in self.conns:
            c.close()
        if self.dir:
            shutil.rmtree(self.dir)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
