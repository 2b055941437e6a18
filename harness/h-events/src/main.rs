wrt::replay_main!(h_events);
