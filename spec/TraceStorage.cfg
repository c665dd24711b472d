INIT StorageInit
NEXT StorageNext
