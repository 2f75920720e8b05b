// Only included, nothing of it is used by the readers.
