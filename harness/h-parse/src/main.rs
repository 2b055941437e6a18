wrt::replay_main!(h_parse);
