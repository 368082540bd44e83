ALTER TABLE submissions DROP COLUMN chunk_size;
ALTER TABLE submissions_completed DROP COLUMN chunk_size;
ALTER TABLE submissions_failed DROP COLUMN chunk_size;
