fn main() {
    // dummy build script, required by `package.links`
}
