wrt::replay_main!(h_logger);
