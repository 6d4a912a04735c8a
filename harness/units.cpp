#include "common.hh"
#include "UnitsSystem.hh"
#include <sys/wait.h>

int main()
{
    Ops ops;
    // units [name]: values of the system of that name, built in a child
    ops["units"] = [](Args& a) {
        std::string name = a.more() ? a.rest() : "";
        if (name == "<empty>") name = "";
        int fd[2], ed[2]; if (pipe(fd) || pipe(ed)) std::_Exit(90);
        pid_t c = fork();
        if (c == 0)
        {
            alarm(20); dup2(ed[1], 1); dup2(ed[1], 2);
            UnitsSystem u(name);
            double v[] = { u.RefFrequency(), u.RefTime(), u.RefLength(), u.RefEField(), u.RefBField(), u.RefMomentum(), u.RefEnergy(),
                u.G4Time(), u.G4Length(), u.G4Energy() };
            if (write(fd[1], v, sizeof v) != sizeof v) _exit(90);
            _exit(0);
        }
        close(fd[1]); close(ed[1]);
        double v[10] = {}; ssize_t got = read(fd[0], v, sizeof v);
        std::string msg; char b[512]; ssize_t m;
        while ((m = read(ed[0], b, sizeof b)) > 0) msg.append(b, m);
        close(fd[0]); close(ed[0]);
        int st; waitpid(c, &st, 0);
        J o("units");
        o.str("name", name).b("built", got == sizeof v).b("said", !msg.empty())
            .i("exit", WIFEXITED(st) ? WEXITSTATUS(st) : -1).i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        const char* k[] = {"freq", "time", "length", "efield", "bfield", "momentum", "energy", "g4time", "g4length", "g4energy"};
        for (int i = 0; i < 10; i++) o.r(k[i], v[i]);
        o.emit();
    };
    ops["constants"] = [](Args&) {
        J("constants").r("pi", +UnitsSystem::pi).r("e", +UnitsSystem::e).r("alpha", +UnitsSystem::alpha).r("c", +UnitsSystem::SI_c)
            .r("me", +UnitsSystem::SI_me).r("qe", +UnitsSystem::SI_qe).r("hbar", +UnitsSystem::SI_hBar)
            .r("lcomp", +UnitsSystem::SI_lComp).r("eps0", +UnitsSystem::SI_eps0).r("eschw", +UnitsSystem::SI_eSchw).emit();
    };
    return Serve(ops);
}
