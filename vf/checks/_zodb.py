"""Databases for the persistence and concurrency checks."""
import transaction


class Database:
    """An in-memory database; close() it at the end."""

    def __init__(self, plain=False):
        from ZODB.DB import DB
        from ZODB.DemoStorage import DemoStorage
        from ZODB.MappingStorage import MappingStorage
        # (oids of a plain one do not depend on chance)
        self.db = DB(MappingStorage() if plain else DemoStorage())
        self.conns = []

    def open(self):
        tm = transaction.TransactionManager()
        conn = self.db.open(transaction_manager=tm)
        self.conns.append(conn)
        return conn, tm

    def drop(self, conn, tm):
        tm.abort()
        conn.close()
        self.conns.remove(conn)

    def close(self):
        for conn in self.conns:
            conn.transaction_manager.abort()
            conn.close()
        self.db.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
