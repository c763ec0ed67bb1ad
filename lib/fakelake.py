"""A data lake in place of the cloud: a store shows a folder through the slow file system; only its owner may open it."""
import fnmatch
import os
import uuid

import fsspec

STORES = {}


class Token:
    def __init__(self, owner):
        self.owner = owner


def auth(tenant_id=None, username=None, password=None, client_id="", client_secret=None, **kwargs):
    return Token((tenant_id, client_secret, client_id))


class Store:
    """What the readers use of the SDK's file system."""

    def __init__(self, token=None, per_call_timeout_seconds=60, store_name=None, **kwargs):
        if store_name not in STORES:
            raise FileNotFoundError("no store %s" % store_name)
        self.root, owner = STORES[store_name]
        if token is None or token.owner != owner:
            raise PermissionError("store %s, credentials %s" % (store_name, token and token.owner))
        self.fs = fsspec.filesystem("vslow")

    def glob(self, path, **kwargs):
        folder, pattern = os.path.split(str(path).lstrip("/"))
        where = os.path.join(self.root, folder)
        # The service gives no promise about the order of entries.
        names = sorted(os.listdir(where), key=lambda x: x[::-1]) if os.path.isdir(where) else []
        return [os.path.join(folder, n) for n in names if fnmatch.fnmatchcase(n, pattern)]

    def read_block(self, fn, offset, length, delimiter=None):
        real = os.path.join(self.root, str(fn).lstrip("/"))
        if offset >= os.path.getsize(real):
            return b""
        with self.fs.open("vslow://" + real, "rb") as f:
            f.seek(offset)
            return f.read(length)


def install():
    from azure.datalake.store import core, lib

    core.AzureDLFileSystem = Store
    lib.auth = auth


def create(r, name, root):
    """A store of a folder; returns the configuration that opens it."""
    tenant = str(uuid.UUID(int=r.getrandbits(128), version=4))
    secret = "".join(r.choice("abcDEF012+/=") for _ in range(20))
    client = str(uuid.UUID(int=r.getrandbits(128), version=4))
    STORES[name] = (root, (tenant, secret, client))
    items = [
        ("fs.adl.oauth2.client.id", client), ("fs.adl.oauth2.credential", secret), ("fs.adl.oauth2.refresh.url", "https://login.microsoftonline.com/%s/oauth2/token" % tenant),
        ("fs.adl.oauth2.access.token.provider.type", "ClientCredential"), ("dfs.adls.oauth2.client.id", "of another service"),
    ]
    r.shuffle(items)
    return '<?xml version="1.0"?>\n<configuration>\n%s</configuration>\n' % "".join("<property><name>%s</name><value>%s</value></property>\n" % x for x in items)
