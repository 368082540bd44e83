ALTER TABLE submissions_failed ADD COLUMN chunks_done INTEGER;
