
// ---- the harness reads and ages a peer's clocks
impl Peer {
    pub(crate) fn vx_times(&self) -> (u64, u64, u64) {
        (self.state.attempt_at, self.state.connect_at, self.state.disconnect_at)
    }

    pub(crate) fn vx_age(&mut self, attempt_at: u64, connect_at: u64) {
        self.state.attempt_at = attempt_at;
        self.state.connect_at = connect_at;
    }

    pub(crate) fn vx_wait(&self) -> Duration {
        let now = Instant::now();
        if self.state.next_retry > now {
            self.state.next_retry - now
        } else {
            Duration::from_secs(0)
        }
    }

    pub(crate) fn vx_ready(&mut self) {
        self.state.next_retry = Instant::now();
    }
}
